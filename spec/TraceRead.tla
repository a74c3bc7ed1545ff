------------------------------ MODULE TraceRead ------------------------------
(* Records of reading a text: [t text, ok, n tree, p positions, c values of  *)
(* the character literals, e error <<class, line, column, file>>, why the    *)
(* kinds of faults that the error mentions, tok the token it quotes].        *)
EXTENDS Depict, Trace

RECURSIVE CharVals(_)
CharVals(ns) ==
  FoldLeft(LAMBDA a, n : a \o (IF n.k = "char" THEN <<CharVal(Tail(n.v))>> ELSE <<>>) \o CharVals(n.c), <<>>, ns)

Pos(ps, i) == <<ps[i].o, ps[i].l, ps[i].c>>

(* The error says what is wrong (er is the fault).                         *)
SaysWhy(c, er) ==
  /\ c.e[1] = er[1]
  /\ er[3] \in Range1(c.why)
  /\ er[3] = "token" => c.tok = er[4]

ReadVerdict(c) ==
  LET r == Read(c.t)
      pre == Pre(r.nodes)
      ps == Positions(c.t)
      m == Len(pre)
  IN
  IF ~c.ok /\ c.e[1] \in {"panic", "hang"} THEN {"C04"}
  ELSE IF c.ok # r.ok THEN {"C03"}
  ELSE IF ~r.ok
  THEN LET p == ps[r.er[2]]
           same == c.e[2] = p.l /\ c.e[3] = p.c IN
       (IF SaysWhy(c, r.er) THEN {} ELSE {"C03"})
       \cup (IF same /\ c.e[4] = "in.clj" THEN {} ELSE {"C02"})
  ELSE LET same == c.n = [i \in 1..m |-> <<pre[i][1], pre[i][2], pre[i][3]>>] IN
       (IF same /\ c.c = CharVals(r.nodes) THEN {} ELSE {"C01"})
       \cup (IF same => c.p = [i \in 1..m |-> Pos(ps, pre[i][4])] /\ c.e[4] = "in.clj" THEN {} ELSE {"C02"})

Only(c, id) == ReadVerdict(c) \cap {id}
TreeVerdict(c)     == Only(c, "C01")
PositionVerdict(c) == Only(c, "C02")
ErrorVerdict(c)    == Only(c, "C03")

(* C08: records of reading with options.                                   *)
OptVerdict(c) ==
  LET r == ReadOpt(c.t, [ns |-> c.opt[1], ic |-> c.opt[2], id |-> c.opt[3]])
      pre == Pre(r.nodes)
      ps == Positions(c.t)
      m == Len(pre)
  IN IF c.ok # r.ok THEN {"C08"}
     ELSE IF ~r.ok THEN {}
     ELSE IF /\ c.n = [i \in 1..m |-> <<pre[i][1], pre[i][2], pre[i][3]>>]
             /\ c.p = [i \in 1..m |-> Pos(ps, pre[i][4])]
          THEN {} ELSE {"C08"}

(* C03 again, whatever the options.                                        *)
OptErrorVerdict(c) ==
  LET r == ReadOpt(c.t, [ns |-> c.opt[1], ic |-> c.opt[2], id |-> c.opt[3]]) IN
  IF c.ok # r.ok \/ (~r.ok /\ ~SaysWhy(c, r.er)) THEN {"C03"} ELSE {}

(* C32: reading a file by its name.                                        *)
FileVerdict(c) ==
  IF c.fds # 0 THEN {"C32"}
  ELSE IF c.how \in {"file", "link", "pipe"}
  THEN LET r == ReadOpt(c.t, [ns |-> c.opt[1], ic |-> c.opt[2], id |-> c.opt[3]])
           pre == Pre(r.nodes)
           ps == Positions(c.t)
           m == Len(pre)
       IN IF c.ok # r.ok THEN {"C32"}
          ELSE IF ~r.ok
          THEN LET p == ps[r.er[2]] IN IF c.e = <<r.er[1], p.l, p.c, "in.clj">> /\ SaysWhy(c, r.er) THEN {} ELSE {"C32"}
          ELSE IF /\ c.n = [i \in 1..m |-> <<pre[i][1], pre[i][2], pre[i][3]>>]
                  /\ c.p = [i \in 1..m |-> Pos(ps, pre[i][4])]
                  /\ c.c = CharVals(r.nodes)
                  /\ m = 0 \/ c.e[4] = "in.clj"
               THEN {} ELSE {"C32"}
  ELSE IF ~c.ok /\ c.e[1] = "system" THEN {} ELSE {"C32"}

(* C33: nodes as text, and the predicates on them.                         *)
ShowVerdict(c) ==
  LET r == ReadOpt(c.t, [ns |-> c.opt[1], ic |-> c.opt[2], id |-> c.opt[3]])
      lines == Depiction(r.nodes, 0)
      m == Len(lines)
      all == All(r.nodes)
      names == Range1(c.names)
  IN IF ~r.ok \/ c.n # [i \in 1..m |-> <<all[i].k, Len(all[i].c), all[i].v>>] THEN {}  \* for C01 and C08
     ELSE IF /\ c.s = lines
             /\ c.ns = [i \in 1..m |-> [lines[i] EXCEPT ![1] = 0]]
             /\ c.is = [i \in 1..m |-> Predicates(all[i], names)]
          THEN {} ELSE {"C33"}
=============================================================================
