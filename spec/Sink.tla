-------------------------------- MODULE Sink --------------------------------
(***************************************************************************)
(* Writing through a buffer to a destination that takes Limit bytes and    *)
(* then fails.  Items are put one after the other; the buffer is passed on *)
(* when it is full and at the end.  After a failure nothing is passed on.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

CONSTANTS Items, BufSize, Limits
VARIABLES k, buf, got, limit, how

Want == FoldLeft(LAMBDA a, x : a \o x, <<>>, Items)
IsPrefix1(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Init == k = 0 /\ buf = <<>> /\ got = <<>> /\ limit \in Limits /\ how = "busy"

(* The destination takes what it has room for (or nothing of it). *)
Pass(b) ==
  IF Len(got) + Len(b) <= limit
  THEN got' = got \o b /\ how' = how
  ELSE /\ \/ got' = got \o SubSeq(b, 1, limit - Len(got))
          \/ got' = got
       /\ how' = "failed"

Put ==
  /\ how = "busy" /\ k < Len(Items)
  /\ k' = k + 1
  /\ LET b == buf \o Items[k + 1] IN
     IF Len(b) > BufSize
     THEN Pass(SubSeq(b, 1, BufSize)) /\ buf' = SubSeq(b, BufSize + 1, Len(b))
     ELSE buf' = b /\ UNCHANGED <<got, how>>
  /\ UNCHANGED limit

Finish ==
  /\ how = "busy" /\ k = Len(Items)
  /\ Pass(buf) /\ buf' = <<>> /\ UNCHANGED <<k, limit>>

Return ==
  /\ how = "busy" /\ k = Len(Items) /\ buf = <<>> /\ got = Want
  /\ how' = "ok" /\ UNCHANGED <<k, buf, got, limit>>

Next == Put \/ Finish \/ Return

(* What one may observe.                                                   *)
Observable(want, received, lim, outcome) ==
  /\ IsPrefix1(received, want)
  /\ Len(received) <= lim
  /\ outcome = "ok" => received = want
  /\ outcome # "ok" => outcome = "fail" /\ lim < Len(want)

Safe == IsPrefix1(got, Want) /\ Len(got) <= limit
Right == /\ how = "ok" => Observable(Want, got, limit, "ok")
         /\ how = "failed" => Observable(Want, got, limit, "fail")
=============================================================================
