------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* The printer: text of a forest of nodes.                                 *)
(*                                                                         *)
(* A context X (all of the settings and the ns information that layout     *)
(* depends on) is a record                                                 *)
(*   sty : name -> indentation style  (default styles plus overrides)      *)
(*   tf  : name -> thread-first style                                      *)
(*   req : alias -> namespace,  ref : referred name -> namespace           *)
(*   ic  : the indent character                                            *)
(* Widths and columns are counted in bytes.                                *)
(***************************************************************************)
EXTENDS Reader

IsSem(n) == n.k \notin {"nl", "com", "meta", "tag"}
IsNL(n) == n.k = "nl"
IsCom(n) == n.k = "com"

HeadSym(n, names) == n.k = "list" /\ n.c # <<>> /\ n.c[1].k = "sym" /\ n.c[1].v \in names
HeadKw(n, names) == n.k = "list" /\ n.c # <<>> /\ n.c[1].k = "kw" /\ n.c[1].v \in names
Names(S) == {Chars(s) : s \in S}
Kw(n, v) == n.k = "kw" /\ n.v = v

NLNode == Node("nl", <<>>, <<>>, 0)
Range1(s) == {s[i] : i \in 1..Len(s)}
Upto(n) == [i \in 1..n |-> i]

----------------------------------------------------------------------------
(* Every comment must be the last thing on its line.                       *)
RECURSIVE EndsCom(_), Term(_)
EndsCom(n) == IF n.k \in PrefixKinds THEN EndsCom(n.c[1]) ELSE n.k = "com"
TermNode(n) ==
  IF n.c = <<>> THEN n
  ELSE LET c == Term(n.c) IN
       [n EXCEPT !.c = IF n.k \in SeqKinds /\ EndsCom(c[Len(c)]) THEN Append(c, NLNode) ELSE c]
Term(ns) ==
  FoldLeft(LAMBDA a, i :
             LET b == Append(a, TermNode(ns[i])) IN
             IF EndsCom(ns[i]) /\ i < Len(ns) /\ ~IsNL(ns[i + 1]) THEN Append(b, NLNode) ELSE b,
           <<>>, Upto(Len(ns)))

----------------------------------------------------------------------------
(* Default styles.                                                         *)
StyleOf(S, st) == [s \in Names(S) |-> st]
DefaultStyles ==
     StyleOf({"as->", "bound-fn", "catch", "def", "definline", "defmacro", "defmethod", "defmulti",
              "defn", "defn-", "defonce", "defstruct", "deftest", "deftest-", "doto", "extend", "fn",
              "if", "if-not", "locking", "ns", "send-off", "set-test", "testing", "update",
              "update-in", "when", "when-not", "while", "with-bindings", "with-in-str",
              "with-precision", "with-redefs-fn", "with-test"}, "body")
  @@ StyleOf({"binding", "dotimes", "if-let", "if-some", "let", "loop", "when-first", "when-let",
              "when-some", "with-local-vars", "with-open", "with-redefs"}, "let")
  @@ StyleOf({"doseq", "for"}, "for")
  @@ StyleOf({"letfn"}, "letfn")
  @@ StyleOf({"definterface", "defprotocol", "defrecord", "deftype", "extend-protocol",
              "extend-type", "proxy", "reify"}, "deftype")
  @@ StyleOf({"cond"}, "cond0")
  @@ StyleOf({"assoc", "case", "cond->", "cond->>"}, "cond1")
  @@ StyleOf({"condp", "defproject"}, "cond2")
DefaultTF == (Chars("->") :> "normal") @@ (Chars("some->") :> "normal") @@ (Chars("cond->") :> "cond->")

BodyPrefixes == Names({"def", "let", "with-", "when-"})
LeadingArgs == [s \in {"bind", "cond0", "cond1", "cond2", "cond4"} |->
   CASE s = "bind" -> 0 [] s = "cond0" -> 1 [] s = "cond1" -> 2 [] s = "cond2" -> 3 [] OTHER -> 5]
MaxCommentAlign == 12

----------------------------------------------------------------------------
(* What an entry of a :require clause says:                                *)
(*   [ok, name, as (<<>> if none), refs, refm (sequences of nodes)]        *)
NoReq == [ok |-> FALSE, name |-> <<>>, as |-> <<>>, refs |-> <<>>, refm |-> <<>>]
KwAs == Chars(":as")  KwRefer == Chars(":refer")  KwReferMacros == Chars(":refer-macros")

RequireSeq(ns) ==
  LET s == SelectSeq(ns, IsSem)
      p == (Len(s) - 1) \div 2
  IN
  IF s = <<>> \/ Len(s) % 2 = 0 THEN NoReq
  ELSE IF s[1].k # "sym" THEN NoReq
  ELSE FoldLeft(LAMBDA r, j :
         LET k == s[2 * j]  v == s[2 * j + 1] IN
         IF ~r.ok THEN r
         ELSE IF Kw(k, KwAs) /\ v.k = "sym" THEN [r EXCEPT !.as = v.v]
         ELSE IF (Kw(k, KwRefer) \/ Kw(k, KwReferMacros)) /\ v.k \in {"list", "vec"}
                 /\ \A x \in Range1(v.c) : IsSem(x) => x.k = "sym"
         THEN IF Kw(k, KwRefer) THEN [r EXCEPT !.refs = v.c] ELSE [r EXCEPT !.refm = v.c]
         ELSE NoReq,
       [NoReq EXCEPT !.ok = TRUE, !.name = s[1].v], Upto(p))

ParseRequire(n) ==
  CASE n.k = "sym" -> [NoReq EXCEPT !.ok = TRUE, !.name = n.v]
    [] n.k \in {"list", "vec"} -> RequireSeq(n.c)
    [] OTHER -> NoReq

RequireKws == Names({":require", ":require-macros"})

(* The aliases and referred names of a file: later entries win.            *)
AllRequires(roots) ==
  FoldLeft(LAMBDA a, r :
    IF ~HeadSym(r, Names({"ns"})) THEN a
    ELSE a \o FoldLeft(LAMBDA b, cl : IF HeadKw(cl, RequireKws)
                                       THEN b \o [i \in 1..Len(cl.c) - 1 |-> ParseRequire(cl.c[i + 1])]
                                       ELSE b, <<>>, r.c), <<>>, roots)
EmptyMap == [x \in {} |-> x]
Aliases(rs) == FoldLeft(LAMBDA f, r : IF r.ok /\ r.as # <<>> THEN (r.as :> r.name) @@ f ELSE f, EmptyMap, rs)
Referrals(rs) ==
  FoldLeft(LAMBDA f, r : IF ~r.ok THEN f ELSE
     FoldLeft(LAMBDA g, n : IF n.k = "sym" THEN (n.v :> r.name) @@ g ELSE g, f, r.refs \o r.refm), EmptyMap, rs)

Context(roots, over, tfover, ic) ==
  LET rs == AllRequires(roots) IN
  [sty |-> over @@ DefaultStyles, tf |-> tfover @@ DefaultTF,
   req |-> Aliases(rs), ref |-> Referrals(rs), ic |-> ic]

(* The style for a name, "" if there is no rule for it.                    *)
Rule(name, X) ==
  LET i == LastIdx(name, "/")
      ns == SubSeq(name, 1, i - 1)
      un == SubSeq(name, i + 1, Len(name))
      full(r) == r \o <<"/">> \o un
      own == IF name \in DOMAIN X.sty THEN X.sty[name] ELSE ""
  IN IF i > 0
     THEN IF ns \in DOMAIN X.req /\ full(X.req[ns]) \in DOMAIN X.sty THEN X.sty[full(X.req[ns])]
          ELSE IF un \in DOMAIN X.sty THEN X.sty[un] ELSE own
     ELSE IF name \in DOMAIN X.ref /\ full(X.ref[name]) \in DOMAIN X.sty THEN X.sty[full(X.ref[name])]
          ELSE own

NameStyle(name, X) ==
  LET r == Rule(name, X)
      un == SubSeq(name, LastIdx(name, "/") + 1, Len(name))
  IN IF r # "" THEN r
     ELSE IF \E p \in BodyPrefixes : StartsWith(un, p) THEN "body" ELSE "list"

ChooseStyle(ns, X) ==
  IF ns = <<>> THEN "normal"
  ELSE CASE ns[1].k = "kw" -> "list" [] ns[1].k = "sym" -> NameStyle(ns[1].v, X) [] OTHER -> "normal"

Shift(st) == CASE st = "cond1" -> "cond0" [] st = "cond2" -> "cond1" [] OTHER -> st

----------------------------------------------------------------------------
(* Special layout of children, by index: "" none, "bind" pairs, "body" a   *)
(* function body, "forbind" pairs in which :let introduces pairs, "letfn"  *)
(* a vector of function bodies.                                            *)
FirstSem(ns, from) ==
  FoldLeft(LAMBDA a, i : IF a = 0 /\ i >= from /\ IsSem(ns[i]) THEN i ELSE a, 0, Upto(Len(ns)))

ListSpecial(ns, X) ==
  LET r == IF ns # <<>> /\ ns[1].k = "sym" THEN Rule(ns[1].v, X) ELSE ""
      f == FirstSem(ns, 2)
  IN [i \in 1..Len(ns) |->
       CASE r = "let"   /\ i = f /\ ns[i].k = "vec" -> "bind"
         [] r = "for"   /\ i = f /\ ns[i].k = "vec" -> "forbind"
         [] r = "letfn" /\ i = f /\ ns[i].k = "vec" -> "letfn"
         [] r = "deftype" /\ i > 1 /\ ns[i].k = "list" -> "body"
         [] OTHER -> ""]

(* In the bindings of a for, a vector after a :let in an even position.    *)
ForSpecial(ns) ==
  LET sem(i) == Cardinality({j \in 1..i : IsSem(ns[j])})  \* 1-based semantic index of i
      prev(i) == FoldLeft(LAMBDA a, j : IF IsSem(ns[j]) THEN j ELSE a, 0, Upto(i - 1))
  IN [i \in 1..Len(ns) |->
       IF ns[i].k = "vec" /\ prev(i) > 0
       THEN IF sem(prev(i)) % 2 = 1 /\ Kw(ns[prev(i)], Chars(":let")) THEN "bind" ELSE ""
       ELSE ""]
LetfnSpecial(ns) == [i \in 1..Len(ns) |-> IF ns[i].k = "list" THEN "body" ELSE ""]
NoSpecial(ns) == [i \in 1..Len(ns) |-> ""]

----------------------------------------------------------------------------
(* Threaded lists among the children of a thread-first form.  th: the form *)
(* is threaded itself.                                                     *)
Threaded(n, th, X) ==
  LET ns == n.c
      on == n.k \in {"list", "fn"} /\ ns # <<>> /\ ns[1].k = "sym"
  IN IF ~on THEN [i \in 1..Len(ns) |-> FALSE]
     ELSE IF ns[1].v \notin DOMAIN X.tf THEN [i \in 1..Len(ns) |-> FALSE]
     ELSE LET st == X.tf[ns[1].v]
              begin == IF th THEN 1 ELSE 2
              idx(i) == Cardinality({j \in 1..i - 1 : ns[j].k \notin {"nl", "com"}})
          IN [i \in 1..Len(ns) |->
               /\ ns[i].k = "list"
               /\ idx(i) >= begin
               /\ st = "normal" \/ (idx(i) - begin) % 2 = 1]

----------------------------------------------------------------------------
(* Docstrings: the index of the docstring among the children of a          *)
(* top-level form, 0 if there is none.                                     *)
DocHeads == Names({"ns", "defmulti", "def", "defmacro", "defn"})
DocIndex(n) ==
  IF ~HeadSym(n, DocHeads) \/ Len(n.c) < 3 THEN 0
  ELSE IF n.c[2].k # "sym" THEN 0
  ELSE LET c == n.c
           d == FoldLeft(LAMBDA a, i : IF a = 0 /\ i >= 3 /\ ~IsNL(c[i]) THEN i ELSE a, 0, Upto(Len(c)))
           \* how many of the following forms are discarded; -1: a form follows
           rest == FoldLeft(LAMBDA m, i :
                     IF m < 0 \/ i <= d \/ c[i].k \in {"nl", "com"} THEN m
                     ELSE IF c[i].k = "discard" THEN m + Missing(c[i])
                     ELSE IF m > 0 THEN m - 1 + Missing(c[i])
                     ELSE -1, 0, Upto(Len(c)))
       IN IF d = 0 THEN 0 ELSE IF c[d].k = "str" /\ rest = -1 THEN d ELSE 0

SplitNL(s) ==
  LET f == FoldLeft(LAMBDA a, c : IF c = NL THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                                  ELSE [a EXCEPT !.cur = Append(@, c)],
                    [done |-> <<>>, cur |-> <<>>], s)
  IN Append(f.done, f.cur)
TrimLeft(s) ==
  LET i == FoldLeft(LAMBDA a, j : IF a = 0 /\ s[j] \notin UniSpace THEN j ELSE a, 0, Upto(Len(s)))
  IN IF i = 0 THEN <<>> ELSE SubSeq(s, i, Len(s))
TrimRight(s) ==
  LET i == FoldLeft(LAMBDA a, j : IF s[j] \notin UniSpace THEN j ELSE a, 0, Upto(Len(s)))
  IN SubSeq(s, 1, i)
Trim(s) == TrimRight(TrimLeft(s))
Blanks(s, ic) == \* number of leading blanks; -1 if there is nothing else
  LET i == FoldLeft(LAMBDA a, j : IF a = 0 /\ s[j] \notin {SP, ic} THEN j ELSE a, 0, Upto(Len(s))) IN i - 1
Rep(c, n) == [i \in 1..n |-> c]

AlignLine(line, w, ic) ==
  LET t == Trim(line)  n == Blanks(line, ic) IN
  IF t = <<>> THEN <<>> ELSE Rep(ic, w) \o (IF n > w THEN Rep(SP, n - w) ELSE <<>>) \o t
Align(s, w, ic) ==
  LET ls == SplitNL(s) IN
  FoldLeft(LAMBDA a, i : IF i = 1 THEN ls[1] ELSE a \o <<NL>> \o AlignLine(ls[i], w, ic), <<>>, Upto(Len(ls)))

----------------------------------------------------------------------------
(* Layout of a node at column w: [o |-> text, w |-> column after it].      *)
(* sp: its special layout; th: it is threaded; doc: it is a docstring;     *)
(* di: the index of its docstring child (only for top-level forms).        *)
RECURSIVE PNode(_, _, _, _, _, _, _), PSeq(_, _, _, _, _, _, _)

(* The column after writing o at column w.                                 *)
Put(o, w) ==
  LET j == LastIdx(o, NL) IN
  [o |-> o, w |-> (IF j = 0 THEN w ELSE 0) + TextWidth(SubSeq(o, j + 1, Len(o)))]
Around(open, r, close) == [o |-> open \o r.o \o close, w |-> r.w + Len(close)]

PNode(n, w, sp, th, doc, di, X) ==
  LET pre(p) == LET r == PNode(n.c[1], w + Len(p), "", FALSE, FALSE, 0, X) IN [r EXCEPT !.o = p \o @]
      seq(open, close, style, spec) ==
        Around(open, PSeq(n.c, w + TextWidth(open), style, spec, Threaded(n, th, X), di, X), close)
      plain == NoSpecial(n.c)
  IN
  CASE n.k \in {"bool", "char", "com", "kw", "num", "sym"} -> Put(n.v, w)
    [] n.k = "nil"  -> Put(NilV, w)
    [] n.k = "str"  -> Put(<<DQ>> \o (IF doc THEN Align(n.v, w, X.ic) ELSE n.v) \o <<DQ>>, w)
    [] n.k = "regex" -> Put(<<"#", DQ>> \o n.v \o <<DQ>>, w)
    [] n.k = "tag"  -> Put((IF n.v[1] \in {"_", "=", "?", "!", "<"} THEN <<"#", SP>> ELSE <<"#">>) \o n.v, w)
    [] n.k = "varq" -> Put(<<"#", "'">> \o n.v, w)
    [] n.k = "quote" -> pre(<<"'">>)
    [] n.k = "squote" -> pre(<<"`">>)
    [] n.k = "deref" -> pre(<<"@">>)
    [] n.k = "unqs" -> pre(<<"~", "@">>)
    [] n.k = "unq"  -> IF n.c[1].k = "deref" THEN pre(<<"~", SP>>) ELSE pre(<<"~">>)
    [] n.k = "meta" -> pre(<<"^">>)
    [] n.k = "discard" -> pre(<<"#", "_">>)
    [] n.k = "eval" -> pre(<<"#", "=">>)
    [] n.k = "list" ->
         LET st0 == IF sp # "" THEN "body" ELSE ChooseStyle(n.c, X)
             st == IF th THEN Shift(st0) ELSE st0
         IN seq(<<"(">>, <<")">>, st, ListSpecial(n.c, X))
    [] n.k = "vec" ->
         seq(<<"[">>, <<"]">>, IF sp \in {"bind", "forbind"} THEN "bind" ELSE "normal",
             CASE sp = "forbind" -> ForSpecial(n.c) [] sp = "letfn" -> LetfnSpecial(n.c) [] OTHER -> plain)
    [] n.k = "fn"  -> seq(<<"#", "(">>, <<")">>, ChooseStyle(n.c, X), plain)
    [] n.k = "set" -> seq(<<"#", "{">>, <<"}">>, "normal", plain)
    [] n.k = "map" -> seq((IF n.v # <<>> THEN <<"#">> \o n.v ELSE <<>>) \o <<"{">>, <<"}">>, "bind", plain)
    [] n.k = "rcond"  -> seq(<<"#", "?", "(">>, <<")">>, "bind", plain)
    [] n.k = "rconds" -> seq(<<"#", "?", "@", "(">>, <<")">>, "bind", plain)

(* A sequence of nodes.  The state of the fold:                            *)
(*   w   indentation of the next line    w2  current column                *)
(*   sp  a blank is due                  nl  at the start of a line        *)
(*   fi, fl  column after and width of the first node                      *)
(*   sem number of semantic nodes so far                                   *)
(*   pr  index in the current pair (-1: before the paired nodes)           *)
(*   ex  the line has extra indentation for the second of a pair           *)
PSeq(ns, w0, style, spec, thr, di, X) ==
  LET paired == style \in DOMAIN LeadingArgs
      lead == IF paired THEN LeadingArgs[style] ELSE 0
      plainBody == {"list", "body", "let", "letfn", "for", "deftype"}
      brk(s, i) ==
        LET s1 == IF style \in plainBody THEN (IF i = 2 THEN [s EXCEPT !.w = @ + 1] ELSE s)
                  ELSE IF paired
                  THEN IF s.pr > 0 THEN (IF s.ex THEN s ELSE [s EXCEPT !.w = @ + 2, !.ex = TRUE])
                       ELSE IF i = 2 /\ s.sem = 1 THEN [s EXCEPT !.w = @ + 1] ELSE s
                  ELSE s
        IN [s1 EXCEPT !.w2 = s1.w, !.o = Append(@, NL), !.nl = TRUE, !.sp = FALSE]
      item(s, i) ==
        LET n == ns[i]
            sem == IsSem(n)
            w == IF i # 2 THEN s.w
                 ELSE CASE style \in {"list", "cond0"} ->
                             IF ~sem /\ s.fl > MaxCommentAlign THEN s.w + 1 ELSE s.fi + 1
                        [] style \in {"normal", "bind"} -> s.w
                        [] OTHER -> s.w + 1
            r == PNode(n, s.w2 + (IF s.sp THEN 1 ELSE 0), spec[i], thr[i], i = di, 0, X)
            sx == IF sem THEN s.sem + 1 ELSE s.sem
            p1 == IF sem /\ s.pr >= 0 THEN s.pr + 1 ELSE s.pr
            p2 == IF sem /\ (sx = lead \/ (p1 = 2 /\ ~Kw(n, Chars(":>>"))) \/ p1 > 2) THEN 0 ELSE p1
        IN [o |-> s.o \o (IF s.nl THEN Rep(X.ic, w) ELSE <<>>) \o (IF s.sp THEN <<SP>> ELSE <<>>) \o r.o,
            w |-> IF s.ex THEN w - 2 ELSE w, w2 |-> r.w, sp |-> TRUE, nl |-> FALSE,
            fi |-> IF i = 1 THEN r.w ELSE s.fi, fl |-> IF i = 1 THEN r.w - w ELSE s.fl,
            sem |-> sx, pr |-> p2, ex |-> FALSE]
      init == [o |-> <<>>, w |-> w0, w2 |-> w0, sp |-> FALSE, nl |-> FALSE, fi |-> 0, fl |-> 0,
               sem |-> 0, pr |-> IF lead > 0 THEN -1 ELSE 0, ex |-> FALSE]
      z == FoldLeft(LAMBDA s, i : IF IsNL(ns[i]) THEN brk(s, i) ELSE item(s, i), init, Upto(Len(ns)))
  IN [o |-> IF z.nl THEN z.o \o Rep(X.ic, z.w) ELSE z.o, w |-> z.w2]

(* The text of a whole file.  Docstrings are those of top-level forms.     *)
PrintTree(roots, X) ==
  LET ns == roots
      n == Len(ns)
      \* top level: normal style, with docstring indices
      place(s, i) ==
        IF IsNL(ns[i]) THEN [s EXCEPT !.o = Append(@, NL), !.w = 0, !.sp = FALSE]
        ELSE LET w == s.w + (IF s.sp THEN 1 ELSE 0)
                 r == PNode(ns[i], w, "", FALSE, FALSE, DocIndex(ns[i]), X)
             IN [o |-> s.o \o (IF s.sp THEN <<SP>> ELSE <<>>) \o r.o, w |-> r.w, sp |-> TRUE]
  IN FoldLeft(place, [o |-> <<>>, w |-> 0, sp |-> FALSE], Upto(n)).o
=============================================================================
