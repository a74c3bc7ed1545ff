------------------------------ MODULE FormatRel ------------------------------
(* What formatting must satisfy: relations on records                        *)
(*   [t text, o output, how, over and tf the overrides as <<name, style>>    *)
(*    pairs, on the enabled transforms, ic the indent character,             *)
(*    o2/how2 the outcome of formatting the output again].                   *)
(*                                                                           *)
(* Each verdict is the relation between text and output that one property    *)
(* demands.  A text that the specification's reader rejects is not judged    *)
(* here (that is for TraceRead).  TraceFormat applies the relations to       *)
(* records of the implementation, MCFormat to the specification itself.      *)
EXTENDS Transforms

FromPairs(ps) == FoldLeft(LAMBDA f, p : (p[1] :> p[2]) @@ f, EmptyMap, ps)
On(c) == Range1(c.on)

(* The verdict `id' unless the relation P holds between the forest read    *)
(* and the forest that the output denotes.                                 *)
Related(c, id, P(_, _)) ==
  LET r == Read(c.t) IN
  IF ~r.ok THEN {}
  ELSE IF c.how # "ok" THEN {id}
  ELSE LET q == Read(c.o) IN
       IF ~q.ok THEN {id} ELSE IF P(r.nodes, q.nodes) THEN {} ELSE {id}

----------------------------------------------------------------------------
(* C13, C14, C15: the exact text, with transforms off.                     *)
Printed(c, id) ==
  LET r == Read(c.t)
      roots == Term(r.nodes)
      X == Context(roots, FromPairs(c.over), FromPairs(c.tf), c.ic)
  IN IF ~r.ok THEN {} ELSE IF c.how = "ok" /\ c.o = PrintTree(roots, X) THEN {} ELSE {id}
LayoutVerdict(c) == Printed(c, "C13")
OverVerdict(c)   == Printed(c, "C14")
ThreadVerdict(c) == Printed(c, "C15")

----------------------------------------------------------------------------
(* Forests up to positions and the inside of docstrings.                   *)
RECURSIVE NoPos(_)
NoPos(n) == [n EXCEPT !.i = 0, !.c = Map1(n.c, NoPos)]
NormDoc(v) == LET ls == SplitNL(v) IN [i \in 1..Len(ls) |-> IF i = 1 THEN ls[1] ELSE Trim(ls[i])]
Norm(roots) ==
  Map1(roots, LAMBDA n : LET d == DocIndex(n)  m == NoPos(n) IN
                         IF d = 0 THEN m ELSE [m EXCEPT !.c[d].k = "doc", !.c[d].v = NormDoc(@)])

(* C16: nothing but horizontal white space changes.                        *)
Blank == {SP, TAB}
NoTrailingBlanks(o) ==
  LET toks == Lex(o) IN
  \A k \in 1..Len(toks) :
     (toks[k].t \in {"nl", "eof"} /\ toks[k].i > 1) =>
       \/ o[toks[k].i - 1] \notin Blank
       \/ k > 1 /\ toks[k - 1].t # "nl" /\ toks[k - 1].j = toks[k].i - 1
TokensVerdict(c) ==
  Related(c, "C16", LAMBDA a, b : Norm(Term(a)) = Norm(b) /\ NoTrailingBlanks(c.o))

(* C17: docstrings.  All strings of a forest with their start indices and  *)
(* whether they are docstrings.                                            *)
RECURSIVE Strings(_)
Strings(n) ==
  IF n.k \in {"str", "regex"} THEN <<[v |-> n.v, i |-> n.i, d |-> FALSE, k |-> n.k]>>
  ELSE Concat(Map1(n.c, Strings))
RootStrings(n) ==
  LET d == DocIndex(n) IN
  IF d = 0 THEN Strings(n)
  ELSE Concat([j \in 1..Len(n.c) |-> IF j = d THEN <<[v |-> n.c[d].v, i |-> n.c[d].i, d |-> TRUE, k |-> "str"]>>
                                     ELSE Strings(n.c[j])])
DocVerdict(c) ==
  LET ps == Positions(c.o) IN
  Related(c, "C17", LAMBDA a, b :
    LET x == Concat(Map1(Term(a), RootStrings))
        y == Concat(Map1(b, Strings))
    IN /\ Len(x) = Len(y)
       /\ \A j \in 1..Len(x) :
            /\ x[j].k = y[j].k
            /\ y[j].v = IF x[j].d THEN Align(x[j].v, ps[y[j].i].c - 1, c.ic) ELSE x[j].v)

----------------------------------------------------------------------------
(* C18 - C24: the output denotes the transformed forest.                   *)
Transformed(c, id) ==
  Related(c, id, LAMBDA a, b : Norm(Transform(a, On(c))) = Norm(b))
SortVerdict(c)     == Transformed(c, "C18")
StyleVerdict(c)    == Transformed(c, "C19")
BlankVerdict(c)    == Transformed(c, "C20")
NewlinesVerdict(c) == Transformed(c, "C21")
UseVerdict(c)      == Transformed(c, "C22")
UnusedVerdict(c)   == Transformed(c, "C23")

(* C24: everything together, to the byte.                                  *)
FullVerdict(c) ==
  LET r == Read(c.t) IN
  IF ~r.ok THEN {}
  ELSE IF c.how = "ok" /\ c.o = Format(r.nodes, On(c), FromPairs(c.over), FromPairs(c.tf), c.ic)
  THEN {} ELSE {"C24"}

(* C34: likewise for a tree that no text denotes, given in preorder as     *)
(* <<kind, number of children, text>>.                                     *)
Rebuild(ps) ==
  FoldRight(LAMBDA p, s : <<Node(p[1], p[3], SubSeq(s, 1, p[2]), 0)>> \o SubSeq(s, p[2] + 1, Len(s)), ps, <<>>)
EditVerdict(c) ==
  IF c.how = "ok" /\ c.o = Format(Rebuild(c.n), On(c), FromPairs(c.over), FromPairs(c.tf), c.ic)
  THEN {} ELSE {"C34"}

(* C25: histories of prints: texts, settings (as above), and prints of     *)
(* text tx with settings se (by the tree of print tr, if not 0, again).     *)
(* Equal things give equal outputs, and what one print gives (any of them,  *)
(* in the long run) is what it should.                                      *)
HistVerdict(c) ==
  LET h == c.h
      l == 1 + (Len(c.texts[1]) % Len(h))
      p == h[l]
      r == Read(c.texts[p.tx])
      s == c.sets[p.se]
  IN
  IF /\ \A i \in 1..Len(h) :
          /\ h[i].kept
          /\ \A j \in 1..(i - 1) :
               (h[i].tx = h[j].tx /\ h[i].se = h[j].se) => h[i].o = h[j].o /\ h[i].how = h[j].how
     /\ p.tr = 0 => p.o = Format(r.nodes, On(s), FromPairs(s.over), FromPairs(s.tf), s.ic)
  THEN {} ELSE {"C25"}

----------------------------------------------------------------------------
(* C10: meaning.  The sequence of marks that a forest consists of, without *)
(* comments and line breaks.  (A prefix holding only a comment applies to  *)
(* what follows, as does one that holds an operand of another prefix.)     *)
RECURSIVE Marks(_)
Marks(n) ==
  CASE n.k \in {"nl", "com"} -> <<>>
    [] n.k \in SeqKinds -> <<[k |-> n.k, v |-> n.v]>> \o Concat(Map1(n.c, Marks)) \o <<[k |-> "end", v |-> <<>>]>>
    [] n.k \in PrefixKinds -> <<[k |-> n.k, v |-> <<>>]>> \o Marks(n.c[1])
    [] OTHER -> <<[k |-> n.k, v |-> n.v]>>
MarksOf(ns) == Concat(Map1(ns, Marks))

(* The entries of a clause: each form with all that belongs to it.         *)
Groups(c) ==
  FoldLeft(LAMBDA s, n :
     IF n.k \in {"nl", "com"} THEN s
     ELSE IF s.m > 0
     THEN [m |-> s.m + Missing(n) - (IF n.k = "discard" THEN 0 ELSE 1),
           g |-> [s.g EXCEPT ![Len(s.g)] = @ \o Marks(n)]]
     ELSE [m |-> Missing(n), g |-> Append(s.g, Marks(n))],
   [m |-> 0, g |-> <<>>], c).g
Bag(s) == [x \in Range1(s) |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

ClauseMeaning(n) ==
  IF HeadKw(n, SortHeads) THEN <<Marks(n.c[1]), Bag(Groups(Tail(n.c)))>> ELSE <<Marks(n), <<>>>>
RootMeaning(n, styled) ==
  LET d == DocIndex(n)
      u == IF d = 0 THEN n ELSE [n EXCEPT !.c[d].v = Concat(NormDoc(@))]
      v == IF IsNS(u) /\ styled THEN StyleNS(u) ELSE u
  IN IF IsNS(v) THEN <<"ns", Map1(SelectSeq(Tail(v.c), LAMBDA x : x.k \notin {"nl", "com"}), ClauseMeaning)>>
     ELSE <<"form", Marks(v)>>
Meaning(roots, styled) ==
  LET f == SelectSeq(roots, LAMBDA x : x.k \notin {"nl", "com"}) IN
  Map1(f, LAMBDA n : RootMeaning(n, styled))
SemVerdict(c) ==
  Related(c, "C10", LAMBDA a, b : Meaning(a, "style" \in On(c)) = Meaning(b, FALSE))

(* C11: comments.                                                          *)
RECURSIVE Comments(_), MarksC(_)
Comments(n) == IF n.k = "com" THEN <<n.v>> ELSE Concat(Map1(n.c, Comments))
MarksC(n) ==
  CASE n.k = "nl" -> <<>>
    [] n.k \in SeqKinds -> <<n.k>> \o Concat(Map1(n.c, MarksC)) \o <<"end">>
    [] n.k \in PrefixKinds -> <<n.k>> \o MarksC(n.c[1])
    [] n.k = "com" -> <<"com", n.v>>
    [] OTHER -> <<n.k>>
CommentsEndLines(o) ==
  LET toks == Lex(o) IN \A k \in 1..Len(toks) : toks[k].t = "com" => toks[k + 1].t \in {"nl", "eof"}
ComVerdict(c) ==
  Related(c, "C11", LAMBDA a, b :
    LET x == SelectSeq(a, LAMBDA n : ~IsNL(n))
        y == SelectSeq(b, LAMBDA n : ~IsNL(n))
    IN /\ CommentsEndLines(c.o)
       /\ Len(x) = Len(y)
       /\ \A j \in 1..Len(x) :
            IF IsNS(x[j]) THEN Bag(Comments(x[j])) = Bag(Comments(y[j])) ELSE MarksC(x[j]) = MarksC(y[j]))

(* C12: formatting again changes nothing.                                  *)
IdemVerdict(c) ==
  IF c.how = "ok" THEN (IF c.how2 = "ok" /\ c.o2 = c.o THEN {} ELSE {"C12"}) ELSE {}
(* C35: texts t and t2 that denote the same nodes are formatted alike.      *)
BlanksVerdict(c) ==
  LET a == Read(c.t)  b == Read(c.t2) IN
  IF a.ok /\ b.ok /\ Map1(a.nodes, NoPos) = Map1(b.nodes, NoPos)
  THEN IF c.how = c.how2 /\ c.o = c.o2 THEN {} ELSE {"C35"}
  ELSE {}

(* C36: texts ps with separators sep between them; os has the outputs for   *)
(* the first alone, and for the first together with each of the others, o   *)
(* that for all of them.                                                    *)
HasNS(roots) == \E i \in 1..Len(roots) : HeadSym(roots[i], Names({"ns"}))
Solid(r) == r.ok /\ r.nodes # <<>> /\ ~IsNL(r.nodes[1]) /\ ~IsNL(Last1(r.nodes))
PiecesVerdict(c) ==
  LET n == Len(c.ps)
      rs == Map1(c.ps, Read)
      pre == IF c.ps[1] = <<>> THEN <<>> ELSE c.os[1] \o c.sep
      rest(o) == SubSeq(o, Len(pre) + 1, Len(o))
  IN IF /\ c.ps[1] = <<>> \/ (Solid(rs[1]) /\ ("unused" \in On(c) => ~HasNS(rs[1].nodes)))
        /\ \A i \in 2..n : Solid(rs[i]) /\ ~HasNS(rs[i].nodes)
     THEN IF /\ c.how = "ok"
             /\ \A i \in 2..n : SubSeq(c.os[i], 1, Len(pre)) = pre
             /\ c.o = pre \o FoldLeft(LAMBDA o, i : IF i = 2 THEN rest(c.os[i]) ELSE o \o c.sep \o rest(c.os[i]),
                                      <<>>, [k \in 1..n - 1 |-> k + 1])
          THEN {} ELSE {"C36"}
     ELSE {}
----------------------------------------------------------------------------
(* What the transforms are for, stated without saying how they do it.      *)
RECURSIVE AllNodes(_), NeededFact(_, _, _)
AllNodes(n) == <<n>> \o Concat(Map1(n.c, AllNodes))
Everywhere(n, P(_)) == \A x \in Range1(AllNodes(n)) : P(x)

NoTrailing(n) ==
  n.k \in {"list", "map", "vec", "fn", "set"} /\ n.c # <<>> =>
    (IsNL(Last1(n.c)) => Len(n.c) > 1 /\ EndsCom(n.c[Len(n.c) - 1]))
AtMostOneBlank(c) == \A i \in 1..Len(c) - 2 : ~(IsNL(c[i]) /\ IsNL(c[i + 1]) /\ IsNL(c[i + 2]))
ArmsAgree(n) ==
  HeadSym(n, IfHeads) =>
    LET s == SelectSeq(Upto(Len(n.c)), LAMBDA i : i > 1 /\ IsSem(n.c[i]))
        brk(a, b) == \E i \in a + 1..b - 1 : IsNL(n.c[i])
    IN Len(s) >= 3 => (brk(1, s[2]) = brk(s[2], s[3]))
InOrder(n) ==
  \A i \in 2..Len(n.c) : HeadKw(n.c[i], SortHeads) =>
    LET es == ScanClause(n.c[i].c).es IN \A j \in 1..Len(es) - 1 : ~KeyLess(SortKey(es[j + 1]), SortKey(es[j]))

(* What an ns form requires, as a set of facts.                            *)
LibFacts(m) ==
  LET s == IF IsSeq(m) THEN SelectSeq(m.c, LAMBDA x : x.k \notin {"nl", "com"}) ELSE <<>>
      all(i) == Kw(s[i], KwRefer) /\ Kw(s[i + 1], Chars(":all"))
      full == Len(s) % 2 = 1 /\ \E i \in {2 * j : j \in 1..Len(s) \div 2} : all(i)
      rest == FoldLeft(LAMBDA a, i : IF i > 1 /\ (IF i % 2 = 0 THEN all(i) ELSE all(i - 1)) THEN a ELSE Append(a, s[i]),
                       <<>>, Upto(Len(s)))
      r == IF full THEN RequireSeq(rest) ELSE ParseRequire(m)
  IN IF ~r.ok THEN {<<"other", Marks(m)>>}
     ELSE {<<"lib", r.name>>}
          \cup (IF r.as = <<>> THEN {} ELSE {<<"as", r.name, r.as>>})
          \cup (IF full THEN {<<"all", r.name>>} ELSE {<<"refer", r.name, x>> : x \in SymsOf(r.refs)})
          \cup {<<"macro", r.name, x>> : x \in SymsOf(r.refm)}
UseFacts(m) ==
  LET u == ParseUse(m) IN
  IF ~u.ok THEN {<<"other", Marks(m)>>}
  ELSE {<<"lib", u.name>>} \cup (IF u.as = <<>> THEN {} ELSE {<<"as", u.name, u.as>>})
       \cup (IF u.all THEN {<<"all", u.name>>} ELSE {<<"refer", u.name, x>> : x \in SymsOf(u.refs)})
ClauseFacts(cl) ==
  LET ops == Operands(cl.c) IN
  UNION {IF ops[i] \/ Missing(cl.c[i]) > 0 \/ cl.c[i].k = "discard" THEN {<<"other", Marks(cl.c[i])>>}
         ELSE IF cl.c[1].v = Chars(":use") THEN UseFacts(cl.c[i]) ELSE LibFacts(cl.c[i]) :
         i \in {j \in 2..Len(cl.c) : cl.c[j].k \notin {"nl", "com"}}}
NSFacts(n) ==
  LET ops == Operands(n.c) IN
  UNION {ClauseFacts(n.c[i]) : i \in {j \in 2..Len(n.c) : HeadKw(n.c[j], UseHeads) /\ ~ops[j]}}
\* A library that is referred in full has no use for single referrals.
Closed(F) == F \ {x \in F : x[1] = "refer" /\ <<"all", x[2]>> \in F}
NSOf(roots) == SelectSeq(roots, IsNS)
FactsOf(roots) == Map1(NSOf(roots), NSFacts)

(* Facts that something in the file depends on.                            *)
NeededFact(x, F, u) ==
  CASE x[1] \in {"other", "all"} -> TRUE
    [] x[1] = "as" -> x[3] \in u.ns
    [] x[1] \in {"refer", "macro"} -> x[3] \in u.sy
    [] OTHER -> x[2] \in u.ns \/ Unders(x[2]) \in u.im
                \/ \E y \in F : y[1] \in {"as", "refer", "macro", "all"} /\ y[2] = x[2] /\ NeededFact(y, F, u)

GoalVerdict(c) ==
  LET on == On(c)
      a == Term(Read(c.t).nodes)
      b == Read(c.o).nodes
      last == IF "trailing" \in on THEN \A i \in 1..Len(b) : Everywhere(b[i], NoTrailing) ELSE TRUE
      u == FileUses(a)
  IN (IF last THEN {} ELSE {"trailing"})
     \cup (IF "blank" \in on => AtMostOneBlank(b) /\ \A i \in 1..Len(b) : Everywhere(b[i], LAMBDA x : AtMostOneBlank(x.c))
           THEN {} ELSE {"blank"})
     \cup (IF "if" \in on => \A i \in 1..Len(b) : Everywhere(b[i], ArmsAgree) THEN {} ELSE {"if"})
     \cup (IF "sort" \in on => \A i \in 1..Len(b) : IsNS(b[i]) => InOrder(b[i]) THEN {} ELSE {"sort"})
     \cup (IF on = {"use"} => Map1(FactsOf(a), Closed) = Map1(FactsOf(b), Closed) THEN {} ELSE {"use"})
     \cup (IF on = {"unused"} =>
              LET x == FactsOf(a)  y == FactsOf(b) IN
              /\ Len(x) = Len(y)
              /\ \A i \in 1..Len(x) : y[i] \subseteq x[i] /\ \A z \in x[i] : NeededFact(z, x[i], u) => z \in y[i]
           THEN {} ELSE {"unused"})
=============================================================================
