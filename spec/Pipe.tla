-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* The scanner and the parser as two processes.                            *)
(*                                                                         *)
(* The scanner consumes the text character by character (module Lexer) and *)
(* hands each token to the parser (module Reader) over an unbuffered       *)
(* channel.  When the parser has finished, be it at the end of the text or *)
(* at a fault, it tells the scanner to stop.  The input may fail after its *)
(* last character instead of ending.                                       *)
(***************************************************************************)
EXTENDS Reader

CONSTANTS Texts, Opts

VARIABLES text,  \* what is being read
          opt,   \* parse options
          fail,  \* the input fails instead of ending
          i,     \* next character
          lx,    \* scanner state
          sent,  \* number of tokens handed over
          eof,   \* the scanner has seen the end (or the failure)
          sc,    \* "run" or "exit"
          rd,    \* parser state
          pa     \* "recv" or "done"

vars == <<text, opt, fail, i, lx, sent, eof, sc, rd, pa>>

Init ==
  /\ text \in Texts /\ opt \in Opts /\ fail \in BOOLEAN
  /\ i = 1 /\ lx = LexInit /\ sent = 0 /\ eof = FALSE /\ sc = "run"
  /\ rd = RdInit /\ pa = "recv"

Pending == sent < Len(lx.toks)

(* The scanner reads a character, if it has no token to hand over. *)
ScanChar ==
  /\ sc = "run" /\ ~Pending /\ ~eof /\ i <= Len(text)
  /\ lx' = LexStep(lx, i, text)
  /\ i' = i + 1
  /\ eof' = (lx'.m = "stop")
  /\ UNCHANGED <<text, opt, fail, sent, sc, rd, pa>>

ScanEnd ==
  /\ sc = "run" /\ ~Pending /\ ~eof /\ i > Len(text)
  /\ lx' = [lx EXCEPT !.toks = IF fail THEN LexFail(lx, text) ELSE LexEnd(lx, text)]
  /\ eof' = TRUE
  /\ UNCHANGED <<text, opt, fail, i, sent, sc, rd, pa>>

(* A token changes hands. *)
Handover ==
  /\ sc = "run" /\ Pending /\ pa = "recv"
  /\ sent' = sent + 1
  /\ rd' = RdStep(rd, lx.toks[sent'], opt)
  /\ pa' = IF rd'.done \/ rd'.er # <<>> THEN "done" ELSE "recv"
  /\ UNCHANGED <<text, opt, fail, i, lx, eof, sc>>

(* Nobody wants the token. *)
Abandon ==
  /\ sc = "run" /\ Pending /\ pa = "done"
  /\ sc' = "exit"
  /\ UNCHANGED <<text, opt, fail, i, lx, sent, eof, rd, pa>>

Exit ==
  /\ sc = "run" /\ ~Pending /\ eof
  /\ sc' = "exit"
  /\ UNCHANGED <<text, opt, fail, i, lx, sent, eof, rd, pa>>

Finished == sc = "exit" /\ pa = "done"

Next == ScanChar \/ ScanEnd \/ Handover \/ Abandon \/ Exit \/ (Finished /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* Both processes always end.                                              *)
Ends == <>Finished

(* However the processes interleave, the parser ends up where running the  *)
(* one after the other would have taken it.                                *)
Result ==
  pa = "done" =>
    LET toks == IF fail THEN LexFail(Scan(text), text) ELSE Lex(text)
        r == Parse(toks, opt)
    IN rd.er = r.er /\ (rd.er = <<>> => rd.st[1].c = r.st[1].c)

(* An error or a tree, and with a failing input always an error.           *)
Outcome == pa = "done" => (rd.done # (rd.er # <<>>)) /\ (fail => rd.er # <<>>)

(* Without a stop signal from the parser the scanner couldn't have exited  *)
(* early.                                                                  *)
NoLoss == sc = "exit" => pa = "done"

(* Tokens are in order, do not overlap, and what lies between them is      *)
(* white space (the parts of a dispatch overlap by a character).           *)
Tokens ==
  \A k \in 2..Len(lx.toks) : lx.toks[k - 1].t # "error" =>
     LET a == lx.toks[k - 1]  b == lx.toks[k] IN
     /\ b.t # "error" =>
          b.i >= a.i /\ (b.i > a.j \/ (a.t = "disp" /\ b.i = a.j))
     /\ b.t \notin {"error"} => \A j \in a.j + 1 .. b.i - 1 : text[j] \in Whitespace
=============================================================================
