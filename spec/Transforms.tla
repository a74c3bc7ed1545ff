----------------------------- MODULE Transforms -----------------------------
(***************************************************************************)
(* The tree transforms that a printer applies before layout.  `on' is the  *)
(* set of the names of the enabled ones:                                   *)
(*   sort style trailing defn defmethod blank if use unused                *)
(***************************************************************************)
EXTENDS Layout

AllTransforms == {"sort", "style", "trailing", "defn", "defmethod", "blank", "if", "use", "unused"}
DefaultOn == AllTransforms \ {"use", "unused"}

SetC(n, c) == [n EXCEPT !.c = c]
Leaf(k, v) == Node(k, v, <<>>, 0)
SymN(v) == Leaf("sym", v)
KwN(s) == Leaf("kw", Chars(s))
VecN(c) == Node("vec", <<>>, c, 0)
ListN(c) == Node("list", <<>>, c, 0)
IsSeq(n) == n.k \in {"list", "vec"}
Last1(s) == s[Len(s)]
Map1(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Concat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)

----------------------------------------------------------------------------
(* Newline transforms.                                                     *)
RECURSIVE DropTrailing(_), TrailingRec(_), BlankRec(_), IfRec(_)

DropTrailing(c) ==
  IF Len(c) >= 2 /\ IsCom(c[Len(c) - 1]) THEN c
  ELSE IF c = <<>> \/ ~IsNL(Last1(c)) THEN c
  ELSE DropTrailing(SubSeq(c, 1, Len(c) - 1))

TrailingRec(n) ==
  LET c == IF n.k \in {"list", "map", "vec", "fn", "set"} THEN DropTrailing(n.c) ELSE n.c
  IN SetC(n, Map1(c, TrailingRec))

(* At most two newlines in a row. *)
RemoveBlank(c) ==
  FoldLeft(LAMBDA s, n : LET k == IF IsNL(n) THEN s.k + 1 ELSE 0 IN
                         [k |-> k, o |-> IF k <= 2 THEN Append(s.o, n) ELSE s.o],
           [k |-> 0, o |-> <<>>], c).o
BlankRec(n) == SetC(n, Map1(RemoveBlank(n.c), BlankRec))

(* The name must come first and on the head's line. *)
NameFirst(c) == ~IsNL(c[2]) /\ ~IsCom(c[2])
Swap34(c) == [c EXCEPT ![3] = c[4], ![4] = c[3]]

FixDefn(n) ==
  LET c == n.c IN
  IF Len(c) >= 5 /\ NameFirst(c) /\ IsNL(c[3]) /\ ~IsNL(c[5]) /\ c[4].k = "vec"
  THEN SetC(n, Swap34(c)) ELSE n
FixDefmethod(n) ==
  LET c == n.c IN
  IF Len(c) >= 5 /\ NameFirst(c) /\ IsNL(c[3]) /\ c[4].k = "kw"
  THEN SetC(n, IF IsNL(c[5]) THEN SubSeq(c, 1, 2) \o SubSeq(c, 4, Len(c)) ELSE Swap34(c)) ELSE n

IfHeads == Names({"if", "if-not", "if-some", "if-let"})
FixIf(c) ==
  LET sems == SelectSeq(Upto(Len(c)), LAMBDA i : i > 1 /\ IsSem(c[i]))
      insert(i) == SubSeq(c, 1, i - 1) \o <<NLNode>> \o SubSeq(c, i, Len(c))
  IN IF Len(sems) < 3 THEN c
     ELSE LET a == sems[2]  b == sems[3]
              na == \E i \in 2..a - 1 : IsNL(c[i])
              nb == \E i \in a + 1..b - 1 : IsNL(c[i])
          IN CASE na /\ ~nb -> insert(b) [] ~na /\ nb -> insert(a) [] OTHER -> c
IfRec(n) == LET c == IF HeadSym(n, IfHeads) THEN FixIf(n.c) ELSE n.c IN SetC(n, Map1(c, IfRec))

----------------------------------------------------------------------------
(* Which nodes belong to an earlier one (being the target of metadata, a   *)
(* tag or a discard).                                                      *)
OperandScan(c) ==
  FoldLeft(LAMBDA s, n :
      IF n.k \in {"nl", "com"} THEN [s EXCEPT !.o = Append(@, FALSE)]
      ELSE [o |-> Append(s.o, s.m > 0),
            m |-> s.m + Missing(n) - (IF s.m > 0 /\ n.k # "discard" THEN 1 ELSE 0)],
    [m |-> 0, o |-> <<>>], c)
Operands(c) == OperandScan(c).o
(* Whether a clause ends with a prefix that has no target. *)
Incomplete(n) == OperandScan(n.c).m > 0

----------------------------------------------------------------------------
(* Sorting the entries of a clause.                                        *)
Entry(above, n) == [above |-> above, nodes |-> <<n>>, beside |-> <<>>, inc |-> FALSE]

SortKey(e) == \* <<>> : no name
  LET n == Last1(e.nodes) IN
  IF e.nodes[1].k = "discard" \/ e.inc THEN <<>>
  ELSE IF n.k = "sym" THEN n.v
  ELSE IF IsSeq(n) /\ n.c # <<>> THEN (IF n.c[1].k = "sym" THEN n.c[1].v ELSE <<>>)
  ELSE <<>>
KeyLess(a, b) == a # <<>> /\ (b = <<>> \/ TextLess(a, b))

(* Stable insertion. *)
StableSort(es, Key(_)) ==
  FoldLeft(LAMBDA s, e :
     LET j == FoldLeft(LAMBDA a, i : IF a = 0 /\ KeyLess(Key(e), Key(s[i])) THEN i ELSE a, 0, Upto(Len(s)))
     IN IF j = 0 THEN Append(s, e) ELSE SubSeq(s, 1, j - 1) \o <<e>> \o SubSeq(s, j, Len(s)),
   <<>>, es)

ScanClause(c) ==
  FoldLeft(LAMBDA s, n :
    LET m == Len(s.es) IN
    IF s.mis > 0
    THEN IF IsNL(n) THEN s
         ELSE LET t == [s EXCEPT !.es[m].nodes = Append(@, n)] IN
              IF IsCom(n) THEN t
              ELSE [t EXCEPT !.mis = @ + Missing(n) - (IF n.k = "discard" THEN 0 ELSE 1)]
    ELSE CASE IsCom(n) ->
                IF s.aft THEN [s EXCEPT !.es[m].beside = Append(@, n)]
                ELSE IF m = 0 /\ ~s.ini THEN [s EXCEPT !.kwc = Append(@, n)]
                ELSE [s EXCEPT !.line = Append(@, n)]
           [] IsNL(n) -> [s EXCEPT !.ini = @ \/ m = 0, !.aft = FALSE]
           [] OTHER -> [s EXCEPT !.es = Append(@, Entry(s.line, n)), !.line = <<>>, !.aft = TRUE,
                                 !.mis = Missing(n)],
   [es |-> <<>>, kwc |-> <<>>, line |-> <<>>, ini |-> FALSE, aft |-> FALSE, mis |-> 0], Tail(c))

WithNL(cs) == Concat(Map1(cs, LAMBDA x : <<x, NLNode>>))

SortClause(n) ==
  LET s == ScanClause(n.c)
      es == IF s.mis > 0 THEN [s.es EXCEPT ![Len(s.es)].inc = TRUE] ELSE s.es
      ent(e) == WithNL(e.above) \o e.nodes \o e.beside \o <<NLNode>>
      o == <<n.c[1]>> \o s.kwc \o (IF s.ini THEN <<NLNode>> ELSE <<>>)
           \o Concat(Map1(StableSort(es, SortKey), ent)) \o WithNL(s.line)
  IN SetC(n, IF Len(o) >= 2 /\ ~IsCom(o[Len(o) - 1]) THEN SubSeq(o, 1, Len(o) - 1) ELSE o)

SortHeads == Names({":require", ":require-macros", ":import"})
SortNS(n) == SetC(n, [i \in 1..Len(n.c) |-> IF i > 1 /\ HeadKw(n.c[i], SortHeads) THEN SortClause(n.c[i]) ELSE n.c[i]])

----------------------------------------------------------------------------
(* ns style.                                                               *)
Letters == {SubSeq(AsciiPrintable, i, i) : i \in (34..59) \cup (66..91)}
           \cup {"u+00E9", "u+03BB", "u+4E16", "u+754C", "u+10348",
               "u+01C5", "u+0800", "u+10000"}
IsClassName(v) == v # <<>> /\ v \notin {NilV, TrueV, FalseV} /\ v[1] \in Letters \cup {"_", "$"}

StyleLib(n) ==
  IF n.k \notin {"list", "vec", "sym"} THEN n
  ELSE LET c == IF n.k = "sym" THEN <<n>> ELSE n.c IN
       VecN(Map1(c, LAMBDA x : IF x.k = "list" THEN VecN(x.c) ELSE x))
StyleImport(n) ==
  CASE n.k = "vec" -> ListN(n.c)
    [] n.k = "sym" ->
         LET j == LastIdx(n.v, ".") IN
         IF j > 1 /\ SubSeq(n.v, 1, j - 1) \notin {NilV, TrueV, FalseV}
            /\ IsClassName(SubSeq(n.v, j + 1, Len(n.v)))
         THEN ListN(<<SymN(SubSeq(n.v, 1, j - 1)), SymN(SubSeq(n.v, j + 1, Len(n.v)))>>)
         ELSE n
    [] OTHER -> n

OneLineClauses == Names({"refer-clojure"})
ManyLineClauses == Names({"require", "require-macros", "use", "import", "load", "gen-class"})
LibClauses == Names({"require", "require-macros"})

StyleClause(n) ==
  IF ~IsSeq(n) \/ n.c = <<>> THEN n
  ELSE IF n.c[1].k \notin {"kw", "sym"} THEN n
  ELSE LET h == n.c[1]
           name == IF h.k = "kw" THEN Tail(h.v) ELSE h.v
           head == IF h.k = "kw" THEN h ELSE Leaf("kw", <<":">> \o name)
           rest == Tail(n.c)
           nl == name \in ManyLineClauses /\ rest # <<>> /\ (rest # <<>> => rest[1].k \notin {"nl", "com"})
           r1 == IF nl THEN <<NLNode>> \o rest ELSE rest
           r2 == CASE name \in LibClauses -> Map1(r1, StyleLib)
                   [] name = Chars("import") -> Map1(r1, StyleImport)
                   [] OTHER -> r1
       IN IF name \in OneLineClauses \cup ManyLineClauses THEN ListN(<<head>> \o r2) ELSE n
StyleNS(n) == SetC(n, [i \in 1..Len(n.c) |-> IF i > 1 THEN StyleClause(n.c[i]) ELSE n.c[i]])

----------------------------------------------------------------------------
(* Merging requires.  A refer list is [o original nodes, s set of names    *)
(* that replaces them, x whether it does].                                 *)
NoRL == [o |-> <<>>, s |-> {}, x |-> FALSE]
SymsOf(c) == {c[i].v : i \in {j \in 1..Len(c) : c[j].k = "sym"}}
Extract(rl) == IF rl.o # <<>> THEN [o |-> <<>>, s |-> SymsOf(rl.o), x |-> TRUE] ELSE rl
MergeRL(rl, o) ==
  IF o = <<>> THEN rl
  ELSE IF rl.o = <<>> /\ ~rl.x THEN [rl EXCEPT !.o = o]
  ELSE LET e == Extract(rl) IN [e EXCEPT !.s = @ \cup SymsOf(o)]

NoComments == [above |-> <<>>, beside |-> <<>>, merged |-> FALSE]
Beside(nc, c) ==
  IF nc.beside = <<>> /\ ~nc.merged THEN [nc EXCEPT !.beside = <<c>>]
  ELSE IF nc.beside # <<>> THEN [above |-> nc.above \o nc.beside \o <<c>>, beside |-> <<>>, merged |-> TRUE]
  ELSE [nc EXCEPT !.above = Append(@, c)]
Above(nc, cs) == [nc EXCEPT !.above = @ \o cs]

(* What an entry of a :use clause says; one with :as counts as an alias.   *)
NoUse == [ok |-> FALSE, name |-> <<>>, as |-> <<>>, refs |-> <<>>, refm |-> <<>>, all |-> FALSE]
ParseUse(n) ==
  CASE n.k = "sym" -> [NoUse EXCEPT !.ok = TRUE, !.name = n.v, !.all = TRUE]
    [] IsSeq(n) ->
         LET c == n.c IN
         IF Len(c) \notin {1, 3} THEN NoUse
         ELSE IF c[1].k # "sym" THEN NoUse
         ELSE LET u == [NoUse EXCEPT !.ok = TRUE, !.name = c[1].v] IN
              IF Len(c) = 1 THEN [u EXCEPT !.all = TRUE]
              ELSE IF Kw(c[2], KwAs) /\ c[3].k = "sym" THEN [u EXCEPT !.as = c[3].v]
              ELSE IF Kw(c[2], Chars(":only")) /\ IsSeq(c[3])
                      /\ \A x \in Range1(c[3].c) : x.k \in {"sym", "com", "nl"}
              THEN [u EXCEPT !.refs = c[3].c]
              ELSE NoUse
    [] OTHER -> NoUse
ParseReq(n) == LET r == ParseRequire(n) IN
  [ok |-> r.ok, name |-> r.name, as |-> r.as, refs |-> r.refs, refm |-> r.refm, all |-> FALSE]

NoList == [m |-> EmptyMap, macros |-> FALSE, er |-> <<>>, eu |-> <<>>, below |-> <<>>]

MergeReq(m, r) ==
  LET old == IF r.name \in DOMAIN m THEN m[r.name]
             ELSE [as |-> {}, all |-> FALSE, rf |-> NoRL, rm |-> NoRL, nc |-> NoComments]
  IN (r.name :> [old EXCEPT !.as = @ \cup (IF r.as = <<>> THEN {} ELSE {r.as}), !.all = @ \/ r.all,
                            !.rf = MergeRL(@, r.refs), !.rm = MergeRL(@, r.refm)]) @@ m

(* Add the entries of a clause.  p: where a comment beside goes.           *)
AddClause(rl0, c, use) ==
  LET ops == Operands(c)
      x == IF use THEN "eu" ELSE "er"
      upd(rl, p, nc) == IF p.t = "m" THEN [rl EXCEPT !.m[p.n].nc = nc]
                        ELSE [rl EXCEPT ![x][p.i].nc = nc]
      get(rl, p) == IF p.t = "m" THEN rl.m[p.n].nc ELSE rl[x][p.i].nc
      fin(s, rl, p) == [rl |-> upd(rl, p, Above(get(rl, p), s.line)), p |-> p, aft |-> TRUE, line |-> <<>>]
      z == FoldLeft(LAMBDA s, i :
             LET n == c[i]  rl == s.rl  m == Len(s.rl[x]) IN
             CASE IsCom(n) -> IF s.aft THEN [s EXCEPT !.rl = upd(rl, s.p, Beside(get(rl, s.p), n))]
                              ELSE [s EXCEPT !.line = Append(@, n)]
               [] IsNL(n) -> [s EXCEPT !.aft = FALSE]
               [] OTHER ->
                  LET r == IF use THEN ParseUse(n) ELSE ParseReq(n) IN
                  IF ops[i] THEN fin(s, [rl EXCEPT ![x][m].nodes = Append(@, n)], [t |-> "x", n |-> <<>>, i |-> m])
                  ELSE IF r.ok THEN fin(s, [rl EXCEPT !.m = MergeReq(@, r)], [t |-> "m", n |-> r.name, i |-> 0])
                  ELSE fin(s, [rl EXCEPT ![x] = Append(@, [nodes |-> <<n>>, nc |-> NoComments])],
                           [t |-> "x", n |-> <<>>, i |-> m + 1]),
             [rl |-> rl0, p |-> [t |-> "", n |-> <<>>, i |-> 0], aft |-> FALSE, line |-> <<>>],
             [i \in 1..Len(c) - 1 |-> i + 1])
  IN [z.rl EXCEPT !.below = @ \o z.line,
                  !.macros = @ \/ c[1].v \in Names({":require-macros", ":use-macros"})]

SortedTexts(S) == StableSort(SetToSeq(S), LAMBDA x : x)

RenderRL(rl, kw) ==
  IF rl.o # <<>> THEN <<KwN(kw), VecN(rl.o)>>
  ELSE IF rl.s = {} THEN <<>>
  ELSE <<KwN(kw), VecN(Map1(SortedTexts(rl.s), SymN))>>

RenderLib(name, r) ==
  LET as == SortedTexts(r.as)
      asv(a) == <<KwN(":as"), SymN(a)>>
      extra == Concat([i \in 1..Len(as) - 1 |-> <<VecN(<<SymN(name)>> \o asv(as[i])), NLNode>>])
  IN WithNL(r.nc.above) \o extra
     \o <<VecN(<<SymN(name)>> \o (IF as = <<>> THEN <<>> ELSE asv(Last1(as)))
               \o (IF r.all THEN <<KwN(":refer"), KwN(":all")>> ELSE RenderRL(r.rf, ":refer"))
               \o RenderRL(r.rm, ":refer-macros"))>>
     \o r.nc.beside \o <<NLNode>>
RenderExtra(e) == WithNL(e.nc.above) \o e.nodes \o e.nc.beside \o <<NLNode>>

RenderRequire(rl) ==
  ListN(<<KwN(IF rl.macros THEN ":require-macros" ELSE ":require"), NLNode>>
        \o Concat(Map1(SortedTexts(DOMAIN rl.m), LAMBDA x : RenderLib(x, rl.m[x])))
        \o Concat(Map1(rl.er, RenderExtra)) \o WithNL(rl.below))
RenderAll(rl) ==
  <<RenderRequire(rl), NLNode>>
  \o (IF rl.eu = <<>> THEN <<>> ELSE <<ListN(<<KwN(":use")>> \o Concat(Map1(rl.eu, RenderExtra))), NLNode>>)

UseHeads == Names({":require", ":use"})
UseToRequire(n) ==
  LET ops == Operands(n.c)
      z == FoldLeft(LAMBDA s, i :
             LET x == n.c[i] IN
             IF s.skip /\ IsNL(x) THEN [s EXCEPT !.skip = FALSE]
             ELSE IF HeadKw(x, UseHeads) /\ ~ops[i] /\ ~Incomplete(x)
             THEN [s EXCEPT !.rl = AddClause(@, x.c, x.c[1].v = Chars(":use")),
                            !.at = IF @ = 0 THEN Len(s.o) ELSE @, !.skip = TRUE]
             ELSE [s EXCEPT !.o = Append(@, x), !.skip = FALSE],
           [o |-> <<SymN(Chars("ns"))>>, rl |-> NoList, at |-> 0, skip |-> FALSE],
           [i \in 1..Len(n.c) - 1 |-> i + 1])
  IN SetC(n, IF z.at = 0 THEN z.o
             ELSE SubSeq(z.o, 1, z.at) \o RenderAll(z.rl) \o SubSeq(z.o, z.at + 1, Len(z.o)))

----------------------------------------------------------------------------
(* Removing unused requires.  What a file uses:                            *)
(*   sy: names without a namespace, ns: namespaces of names, im: imports.  *)
Cat(a, b) == [sy |-> a.sy \cup b.sy, ns |-> a.ns \cup b.ns, im |-> a.im \cup b.im]
NoUses == [sy |-> {}, ns |-> {}, im |-> {}]

RECURSIVE Uses(_)
Uses(n) ==
  LET i == FirstIdx(n.v, "/")
      auto == StartsWith(n.v, <<":", ":">>) /\ Len(n.v) > 2
      own ==
        CASE n.k \in {"sym", "varq"} ->
               IF i <= 1 THEN [NoUses EXCEPT !.sy = {n.v}] ELSE [NoUses EXCEPT !.ns = {SubSeq(n.v, 1, i - 1)}]
          [] n.k = "kw"  -> IF auto /\ i > 0 THEN [NoUses EXCEPT !.ns = {SubSeq(n.v, 3, i - 1)}] ELSE NoUses
          [] n.k = "map" -> IF auto THEN [NoUses EXCEPT !.ns = {SubSeq(n.v, 3, Len(n.v))}] ELSE NoUses
          [] OTHER -> NoUses
  IN FoldLeft(LAMBDA a, c : Cat(a, Uses(c)), own, n.c)

ImportOf(n) ==
  CASE n.k = "sym" -> LET j == LastIdx(n.v, ".") IN IF j > 0 THEN {SubSeq(n.v, 1, j - 1)} ELSE {}
    [] IsSeq(n) /\ n.c # <<>> -> IF n.c[1].k = "sym" THEN {n.c[1].v} ELSE {}
    [] OTHER -> {}
NSImports(n) ==
  [NoUses EXCEPT !.im =
     UNION {UNION {ImportOf(cl.c[i]) : i \in 2..Len(cl.c)} :
            cl \in {x \in Range1(Tail(n.c)) : HeadKw(x, Names({":import"}))}}]
FileUses(roots) ==
  FoldLeft(LAMBDA a, r : Cat(a, IF HeadSym(r, Names({"ns"})) THEN NSImports(r) ELSE Uses(r)), NoUses, roots)

Unders(v) == [i \in 1..Len(v) |-> IF v[i] = "-" THEN "_" ELSE v[i]]
PruneRL(rl, u) ==
  LET e == IF rl.o # <<>> /\ (rl.o # <<>> => \E v \in SymsOf(rl.o) : v \notin u.sy) THEN Extract(rl) ELSE rl
  IN [e EXCEPT !.s = @ \cap u.sy]
Prune(r, u) == [r EXCEPT !.as = @ \cap u.ns, !.rf = PruneRL(@, u), !.rm = PruneRL(@, u)]
Needed(name, r, u) == \* r is pruned
  \/ name \in u.ns \/ Unders(name) \in u.im \/ r.as # {} \/ r.all
  \/ r.rf.o # <<>> \/ r.rf.s # {} \/ r.rm.o # <<>> \/ r.rm.s # {}

SideEffect(n) == n.k = "vec" /\ Len(SelectSeq(n.c, IsSem)) = 1
PruneClause(n, u) ==
  LET ops == Operands(n.c)
      keep(i) == i > 1 /\ SideEffect(n.c[i]) /\ ~ops[i]
      sel(P(_)) == [j \in 1..Len(SelectSeq(Upto(Len(n.c)), P)) |-> n.c[SelectSeq(Upto(Len(n.c)), P)[j]]]
      rl == AddClause(NoList, sel(LAMBDA i : ~keep(i)), FALSE)
      pr == [x \in DOMAIN rl.m |-> Prune(rl.m[x], u)]
      m == [x \in {y \in DOMAIN pr : Needed(y, pr[y], u)} |-> pr[x]]
      l == RenderRequire([rl EXCEPT !.m = m])
  IN SetC(l, l.c \o sel(keep))
RemoveUnused(n, u) ==
  LET ops == Operands(n.c) IN
  SetC(n, FoldLeft(LAMBDA s, i :
    LET x == n.c[i] IN
    IF s.skip /\ IsNL(x) THEN [s EXCEPT !.skip = FALSE]
    ELSE IF ~HeadKw(x, RequireKws) \/ ops[i] \/ Incomplete(x) THEN [skip |-> FALSE, o |-> Append(s.o, x)]
    ELSE LET p == PruneClause(x, u) IN
         IF Len(p.c) <= 2 THEN [s EXCEPT !.skip = TRUE]
         ELSE [skip |-> FALSE, o |-> Append(s.o, p)],
    [skip |-> FALSE, o |-> <<>>], Upto(Len(n.c))).o)

----------------------------------------------------------------------------
(* All together.                                                           *)
IsNS(n) == HeadSym(n, Names({"ns"}))
When(b, n, m) == IF b THEN m ELSE n

ApplyRoot(r, on, u) ==
  LET ns == IsNS(r)
      r1 == IF ns /\ "use" \in on THEN UseToRequire(r) ELSE r
      r2 == IF ns /\ "unused" \in on THEN RemoveUnused(r1, u) ELSE r1
      r3 == IF ns /\ "style" \in on THEN StyleNS(r2) ELSE r2
      r4 == IF ns /\ "sort" \in on THEN SortNS(r3) ELSE r3
      r5 == IF "trailing" \in on THEN TrailingRec(r4) ELSE r4
      r6 == IF "defn" \in on /\ HeadSym(r5, Names({"defn"})) THEN FixDefn(r5) ELSE r5
      r7 == IF "defmethod" \in on /\ HeadSym(r6, Names({"defmethod"})) THEN FixDefmethod(r6) ELSE r6
      r8 == IF "blank" \in on THEN BlankRec(r7) ELSE r7
  IN IF "if" \in on THEN IfRec(r8) ELSE r8

Transform(nodes, on) ==
  LET t == Term(nodes)
      u == IF "unused" \in on THEN FileUses(t) ELSE NoUses
      a == Map1(t, LAMBDA r : ApplyRoot(r, on, u))
  IN Term(IF "blank" \in on THEN RemoveBlank(a) ELSE a)

Format(nodes, on, over, tfover, ic) ==
  LET t == Transform(nodes, on) IN PrintTree(t, Context(t, over, tfover, ic))
=============================================================================
