------------------------------- MODULE MCTrees -------------------------------
(* Trees that no text denotes: what reading some texts with any options gives, *)
(* edited a few times.  What is printed for such a tree reads back as that   *)
(* tree, laid out by the same rules (C34); its depiction tells its shape     *)
(* (C33).                                                                    *)
EXTENDS FormatRel

D == INSTANCE Depict

CONSTANTS Texts, Fresh, MaxEdits

VARIABLES forest, edits

Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
Delete(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

RECURSIVE Edited(_)
Edited(ns) ==
  {Delete(ns, i) : i \in 1..Len(ns)}
  \cup {Insert(ns, i, x) : i \in 1..(Len(ns) + 1), x \in Fresh}
  \cup UNION {IF ns[i].k \in SeqKinds THEN {[ns EXCEPT ![i].c = e] : e \in Edited(ns[i].c)}
              ELSE IF ns[i].k \in PrefixKinds THEN {[ns EXCEPT ![i].c = <<x>>] : x \in {y \in Fresh : y.k \notin {"nl", "com"}}}
              ELSE {} : i \in 1..Len(ns)}

AllOptions == [ns : BOOLEAN, ic : BOOLEAN, id : BOOLEAN]
Init == /\ forest \in {Map1(ReadOpt(Chars(t), o).nodes, NoPos) : t \in Texts, o \in AllOptions}
        /\ edits = 0
Next == edits < MaxEdits /\ edits' = edits + 1 /\ forest' \in Edited(forest)

(* Preorder lists and back.                                                *)
Flat(ns) == LET p == Pre(ns) IN [i \in 1..Len(p) |-> <<p[i][1], p[i][2], p[i][3]>>]

ReadsBack(on) ==
  LET t == Transform(forest, on)
      r == Read(PrintTree(t, Context(t, EmptyMap, EmptyMap, SP)))
  IN r.ok /\ Norm(r.nodes) = Norm(t)

(* The children of line i are the lines that follow, one level deeper, up  *)
(* to the next that is no deeper than i.                                   *)
Shape(ls) ==
  LET all == D!All(forest) IN
  \A i \in 1..Len(ls) :
    LET e == CHOOSE j \in (i + 1)..(Len(ls) + 1) : (j = Len(ls) + 1 \/ ls[j][1] <= ls[i][1]) /\ \A k \in (i + 1)..(j - 1) : ls[k][1] > ls[i][1]
    IN Len(all[i].c) = Cardinality({j \in (i + 1)..(e - 1) : ls[j][1] = ls[i][1] + 2})

Good ==
  /\ Rebuild(Flat(forest)) = forest
  /\ ReadsBack({})
  /\ ReadsBack(DefaultOn)
  /\ Shape(D!Depiction(forest, 0))

SomeTexts == {"(ns a (:require [b :refer [c]]))", "(defn f" \o NL \o " [x]" \o NL \o " #_y 'z)", "^m {#t a ;c" \o NL \o " ~@b}", "(comment @~ #(a))"}
MoreTexts == SomeTexts \cup {"(if a" \o NL \o " b c)", "#?(:a #=(b) ^:c d)", "(-> x (let [a b]" \o NL \o " c))", "(defmethod a" \o NL \o " :b c)"}
SomeNodes == {Leaf("sym", Chars("s")), NLNode, Leaf("com", Chars(";d")), ListN(<<>>), VecN(<<Leaf("kw", Chars(":k"))>>)}
MoreNodes == SomeNodes \cup {Node("deref", <<>>, <<Leaf("sym", Chars("v"))>>, 0), Node("unq", <<>>, <<Leaf("num", Chars("1"))>>, 0), Leaf("tag", Chars("u")), Leaf("str", Chars("p" \o NL \o " q"))}
=============================================================================
