------------------------------ MODULE MCFormat ------------------------------
(* The specification of formatting, checked against the relations that the   *)
(* properties demand: texts are grown lexeme by lexeme from the vocabulary   *)
(* of a frame, and every balanced one is formatted (with some selections of  *)
(* transforms), formatted again, and judged.                                 *)
EXTENDS FormatRel

CONSTANTS FrameSet, Extra

(* A frame: text before and after, lexemes, number of lexemes, selections. *)
F(pre, voc, post, max, ons) == [pre |-> pre, voc |-> voc, post |-> post, max |-> max, ons |-> ons]
C1 == ";c" \o NL
None == {}
Frames ==
     ("req"    :> F("(ns a (:require", {"c", "[b]", "(b", ")", C1, NL, "#_", "^:m"}, "))", 4, {DefaultOn, {"sort"}, {"style"}}))
  @@ ("clause" :> F("(ns a", {"(:require", "(:use", "(:import", "c.D", "b", ")", NL, C1, "[b :as c]"}, ")", 5, {DefaultOn}))
  @@ ("use"    :> F("(ns a (:use", {"b", "[b :only [x y]]", "[c :as d]", ")", "(:require", "[b :as e]", "[b :refer [x]]", C1, NL, "#_"},
                    ") c/x (f d/y)", 4, {{"use"}, {"unused"}, {"use", "unused"} \cup DefaultOn}))
  @@ ("unused" :> F("(ns a (:require", {"b", "[b]", "[d :as c :refer [x z]]", "[e :as x]", ")", "(:require", C1, NL, "#_"},
                    ")) c/x x ::e/k", 4, {{"unused"}}))
  @@ ("defn"   :> F("(defn", {"f", "[x]", "{}", NL, C1, DQ \o "d" \o NL \o " e" \o DQ, "#_"}, ")", 5, {DefaultOn, {"defn"}, None}))
  @@ ("def"    :> F("(def", {"x", "^:m", "#t", "#_", NL, C1, DQ \o "d" \o NL \o TAB \o " e " \o NL \o DQ}, ")", 5, {DefaultOn, None}))
  @@ ("defm"   :> F("(defmethod", {"x", ":k", "[x]", NL, C1, "#_"}, ")", 6, {DefaultOn, {"defmethod"}}))
  @@ ("if"     :> F("(if", {"x", "(f", ")", NL, C1, "#_", "^:m"}, ")", 6, {DefaultOn, {"if"}}))
  @@ ("blank"  :> F("x", {"[", "]", NL, C1, "#(", ")", "y"}, "z", 6, {DefaultOn, {"trailing"}, {"blank"}, {"trailing", "blank"}}))
  @@ ("pre"    :> F("", {"'", "~", "@", "#_", "^", "#", "x", C1, NL}, " y", 5, {DefaultOn, None}))
  @@ ("pair"   :> F("{", {"x", ":>>", "(cond-> x", ")", NL, ";c\r", "[", "]"}, "}", 6, {None}))
  @@ ("body"   :> F("(let [a", {"(let", "[", "]", ")", NL, "x", ":let"}, ")", 6, {None, DefaultOn}))

  @@ ("list"   :> F("(a", {"x", "(foo", "(let [x", "([y", "[", "]", ")", NL, C1, DQ \o "d" \o NL \o " " \o DQ}, ")", 5, {None}))
  @@ ("over"   :> F("(ns a (:require [m.n :as k :refer [z]])) (foo x", {"(k/z", "(z", "(foo", "(let [x", "]", ")", NL, "y", "#("}, ")", 5, {None}))
  @@ ("thread" :> F("(-> x", {"(cond-> a", "(cond", "(assoc", "(-> b", "#(some-> c", ")", NL, "y", ";c" \o NL}, ")", 6, {None}))

VARIABLES f, text, open, n
vars == <<f, text, open, n>>

Closing == ("(" :> ")") @@ ("[" :> "]") @@ ("{" :> "}")
(* Delimiters that a lexeme opens and closes; those in strings and         *)
(* comments do not count.                                                  *)
Delta(stack, w) ==
  FoldLeft(LAMBDA s, t :
      IF s = <<"!">> THEN s
      ELSE IF t.t \in {"(", "[", "{"} THEN Append(s, Closing[t.t])
      ELSE IF t.t \in {")", "]", "}"} THEN IF s # <<>> /\ s[Len(s)] = t.t THEN SubSeq(s, 1, Len(s) - 1) ELSE <<"!">>
      ELSE s,
    stack, Lex(w))

Init == /\ f \in FrameSet
        /\ text = Chars(Frames[f].pre)
        /\ open = Delta(<<>>, Chars(Frames[f].pre))
        /\ n = 0
Next == /\ n < Frames[f].max + Extra
        /\ \E w \in Frames[f].voc :
             LET d == Delta(open, Chars(w)) IN
             /\ d # <<"!">>
             /\ text' = text \o <<SP>> \o Chars(w)
             /\ open' = d
        /\ n' = n + 1
        /\ f' = f

Whole == text \o Chars(Frames[f].post)
Record(on) ==
  LET r == Read(Whole)
      o == Format(r.nodes, on, EmptyMap, EmptyMap, SP)
      q == Read(o)
  IN [t |-> Whole, how |-> "ok", o |-> o, on |-> SetToSeq(on), over |-> <<>>, tf |-> <<>>, ic |-> SP,
      how2 |-> IF q.ok THEN "ok" ELSE "err", o2 |-> IF q.ok THEN Format(q.nodes, on, EmptyMap, EmptyMap, SP) ELSE <<>>]

Good(on) ==
  LET c == Record(on) IN
  /\ ComVerdict(c) = {} \/ on \cap {"use", "unused"} # {}
  /\ on \cap {"use", "unused"} # {} \/ (SemVerdict(c) = {} /\ IdemVerdict(c) = {})
  /\ on = {} => TokensVerdict(c) = {} /\ DocVerdict(c) = {}
  /\ GoalVerdict(c) = {}

AllGood ==
  Delta(open, Chars(Frames[f].post)) = <<>> =>
  (~Read(Whole).ok \/ \A on \in Frames[f].ons : Good(on))

----------------------------------------------------------------------------
(* Layout: what the styles mean for the lines of a form, and that settings *)
(* touch only what they name.                                              *)
Place(m, ps) == ps[m.i].c - 1
StartsLine(c, j) == j > 1 /\ IsNL(c[j - 1]) /\ ~IsNL(c[j])
Relative(m, ps) == [j \in 1..Len(m.c) |-> IF StartsLine(m.c, j) THEN Place(m.c[j], ps) - Place(m, ps) ELSE 0]

(* The plain styles; the first child is not broken over lines.             *)
LineRule(m, ps, X) ==
  LET st == ChooseStyle(m.c, X)
      one == Len(m.c) > 1 /\ ~IsNL(m.c[2])
      rel == Relative(m, ps)
      here(j) == CASE st = "list" /\ one ->
                        IF ~IsSem(m.c[2]) /\ TextWidth(m.c[1].v) > MaxCommentAlign THEN 2
                        ELSE Place(m.c[2], ps) - Place(m, ps)
                   [] st = "normal" -> 1
                   [] OTHER -> 2
  IN m.k = "list" /\ m.c # <<>> /\ st \in {"list", "normal", "body", "let", "letfn", "for", "deftype"} =>
     ((m.c[1].k \in {"sym", "kw"} \/ st = "normal") => \A j \in 2..Len(m.c) : StartsLine(m.c, j) => rel[j] = here(j))

(* The forms that are laid out by their own style only.                    *)
RECURSIVE Own(_, _)
Own(m, X) == \* m is one of them itself
  LET sp == ListSpecial(m.c, X)
      th == Threaded(m, FALSE, X)
  IN <<m>> \o Concat([j \in 1..Len(m.c) |->
       IF m.c[j].k \in {"list", "quote", "deref"} /\ (m.k # "list" \/ sp[j] = "") /\ ~th[j] THEN Own(m.c[j], X) ELSE <<>>])

Laid(over, tf) ==
  LET r == Term(Read(Whole).nodes)
      o == PrintTree(r, Context(r, over, tf, SP))
  IN [o |-> o, ns |-> Read(o).nodes, ps |-> Positions(o), X |-> Context(r, over, tf, SP)]

(* The lines of all forms that lie in no affected one.                     *)
RECURSIVE Untouched(_, _, _, _)
Untouched(x, y, a, b) ==
  LET name(m) == m.k \in {"list", "fn"} /\ m.c # <<>> /\ m.c[1].k = "sym"
      changed == name(x) /\ (\/ ChooseStyle(x.c, a.X) # ChooseStyle(y.c, b.X)
                             \/ Rule(x.c[1].v, a.X) # Rule(y.c[1].v, b.X)
                             \/ (x.c[1].v \in DOMAIN a.X.tf) # (x.c[1].v \in DOMAIN b.X.tf))
  IN changed \/ (/\ (x.k = "list" /\ name(x)) => Relative(x, a.ps) = Relative(y, b.ps)
                 /\ \A j \in 1..Len(x.c) : Untouched(x.c[j], y.c[j], a, b))

SomeOver == (Chars("m.n/z") :> "body") @@ (Chars("foo") :> "let")
LayoutGood ==
  Delta(open, Chars(Frames[f].post)) = <<>> =>
  (~Read(Whole).ok \/
   LET a == Laid(EmptyMap, EmptyMap)
       b == Laid(SomeOver, EmptyMap)
       d == Laid(EmptyMap, (Chars("cond") :> "normal") @@ (Chars("foo") :> "cond->"))
   IN /\ \A i \in 1..Len(a.ns) : \A m \in Range1(Own(a.ns[i], a.X)) : LineRule(m, a.ps, a.X)
      /\ Len(a.ns) = Len(b.ns) /\ Len(a.ns) = Len(d.ns)
      /\ \A i \in 1..Len(a.ns) : Untouched(a.ns[i], b.ns[i], a, b) /\ Untouched(a.ns[i], d.ns[i], a, d))

AllFrames == DOMAIN Frames
=============================================================================
