-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Judging recorded behaviour.  TRACE names a file of records, one per     *)
(* observed call of the implementation with its arguments and its outcome. *)
(* Each record is a step of the trace specification; the verdict on it is  *)
(* a set of names of the relations that the outcome violates.  The records *)
(* are independent, so they are spread over stripes that TLC's workers     *)
(* explore in parallel.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

Cases == ndJsonDeserialize(IOEnv.TRACE)
Stripes == 64

VARIABLES stripe, step

Init == stripe \in 1..Stripes /\ step = 0

Next ==
  LET i == stripe + step * Stripes IN
  /\ i <= Len(Cases)
  /\ step' = step + 1
  /\ stripe' = stripe
  /\ LET v == Verdict(Cases[i]) IN v = {} \/ PrintT(<<"BAD", Cases[i].id, v>>)
=============================================================================
