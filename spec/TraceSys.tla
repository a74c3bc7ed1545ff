------------------------------ MODULE TraceSys ------------------------------
(* Records about more than a single result: totality, ways in which input  *)
(* arrives, goroutines, concurrency, links among nodes, histories of       *)
(* prints, and writers that fail.                                          *)
EXTENDS Reader, Trace

Api == INSTANCE TreeApi
Out == INSTANCE Sink WITH Items <- <<>>, BufSize <- 1, Limits <- {},
                          k <- 0, buf <- <<>>, got <- <<>>, limit <- 0, how <- ""

(* C04: every call returns, with one thing or the other.                   *)
TotalVerdict(c) ==
  IF \/ c.r = "error" /\ c.f = "none" /\ c.s = "none"
     \/ c.r = "tree" /\ c.f \in {"ok", "error"} /\ c.s \in {"ok", "none"}
  THEN {} ELSE {"C04"}

(* C05: [t the text delivered, opt, fail 0 unless the input then fails, w  *)
(* the result of reading the text at once, got the result].                *)
OptOf(b) == [ns |-> b[1], ic |-> b[2], id |-> b[3]]
SplitVerdict(c) ==
  LET failed == ~c.got.ok /\ c.got.e[1] = "read"
      \* a fault in the text, found before the failure
      faulty == ~c.got.ok /\ ~c.w.ok /\ c.got.e = c.w.e /\ c.w.e[1] = "other"
      er == Parse(LexFail(Scan(c.t), c.t), OptOf(c.opt)).er
  IN IF c.fail = 0 THEN (IF c.got = c.w THEN {} ELSE {"C05"})
     ELSE IF failed THEN {}
     ELSE IF faulty /\ (c.big \/ er[1] # "read") THEN {}
     ELSE {"C05"}

(* C06: the events of some reads, one after the other.  While a call is in *)
(* progress the input is read (r, x); after the return a read may still be *)
(* under way; then all is quiet and the input is garbage.                  *)
EvStep(s, e) ==
  CASE s = "idle" /\ e = "call" -> "in"
    [] s \in {"in", "out"} /\ e \in {"r", "x", "release"} -> s
    [] s = "in" /\ e = "ret" -> "out"
    [] s = "out" /\ e = "quiet" -> "quiet"
    [] s = "quiet" /\ e = "release" -> s
    [] s = "quiet" /\ e = "freed" -> "idle"
    [] OTHER -> "wrong"
LeakVerdict(c) == IF FoldLeft(EvStep, "idle", c.ev) = "idle" THEN {} ELSE {"C06"}

(* C07: each operation gives what it gives alone.                          *)
ConVerdict(c) ==
  IF \A i \in 1..Len(c.ops) : c.ops[i].how2 = c.ops[i].how /\ c.ops[i].o2 = c.ops[i].o
                              /\ c.ops[i].s2 = c.ops[i].s THEN {} ELSE {"C07"}

(* C09: histories of SetChildren.                                          *)
LinkVerdict(c) ==
  LET s0 == Api!Linked(c.kinds, c.e0)
      run == FoldLeft(LAMBDA a, op :
               LET t == Api!SetChildren(a.s, op.x, op.cs)
                   refused == ~Api!Allowed(a.s, op.x, op.cs)
               IN [s |-> t, ok |-> /\ a.ok
                                   /\ refused <=> op.how = "refused"
                                   /\ op.p = t.pa /\ op.c = t.ch],
               [s |-> s0, ok |-> c.p0 = s0.pa /\ c.c0 = s0.ch], c.ops)
  IN IF run.ok THEN {} ELSE {"C09"}

(* C26.                                                                    *)
WriteVerdict(c) == IF Out!Observable(c.want, c.got, c.limit, c.how) THEN {} ELSE {"C26"}
=============================================================================
