------------------------------- MODULE MCRead -------------------------------
(* The specification of reading, checked on all texts made of a few lexemes  *)
(* against what the properties say about reading without saying how it is    *)
(* done: the tree read is the text (nothing lost or invented, positions in   *)
(* order), a text that was read is read the same when it is written out, and *)
(* options only take away.                                                   *)
EXTENDS FormatRel

CONSTANTS Lexemes, MaxLen

VARIABLES text, n

Init == text = <<>> /\ n = 0
Next == n < MaxLen /\ \E w \in Lexemes : text' = text \o Chars(w) /\ n' = n + 1

----------------------------------------------------------------------------
(* A forest as a sequence of marks, one for each lexeme that matters.      *)
Mark(k, v, i) == [k |-> k, v |-> v, i |-> i]
RECURSIVE StreamOf(_)
StreamOf(m) ==
  CASE m.k \in SeqKinds -> <<Mark(m.k, m.v, m.i)>> \o Concat(Map1(m.c, StreamOf)) \o <<Mark("end", <<>>, 0)>>
    [] m.k \in PrefixKinds -> <<Mark(m.k, <<>>, m.i)>> \o StreamOf(m.c[1])
    [] OTHER -> <<Mark(m.k, m.v, m.i)>>
Stream(ns) == Concat(Map1(ns, StreamOf))

(* Positions increase.                                                     *)
Ordered(s) ==
  LET p == SelectSeq(s, LAMBDA m : m.k # "end") IN \A j \in 1..Len(p) - 1 : p[j].i < p[j + 1].i

(* All that is written outside white space is in the tree: the lexemes of  *)
(* the tree and those of the text are equally many.                        *)
Pieces(m) ==
  CASE m.k \in {"fn", "set", "rcond", "rconds", "regex", "tag", "varq", "unqs"} -> 2
    [] m.k = "map" -> IF m.v # <<>> THEN 3 ELSE 1
    [] OTHER -> 1
Complete(s, t) ==
  LET toks == SelectSeq(Lex(t), LAMBDA x : x.t \notin {"nl", "com", "eof"})
      p == SelectSeq(s, LAMBDA m : m.k \notin {"nl", "com"})
  IN Len(toks) = FoldLeft(LAMBDA a, m : a + Pieces(m), 0, p)

----------------------------------------------------------------------------
(* Taking away, on marks.  Skip: the index after the form at j, or 0.      *)
RECURSIVE Skip(_, _), Close(_, _, _)
Close(s, j, d) == IF d = 0 THEN j ELSE IF s[j].k = "end" THEN Close(s, j + 1, d - 1)
                  ELSE Close(s, j + 1, IF s[j].k \in SeqKinds THEN d + 1 ELSE d)
Skip(s, j) ==
  IF j = 0 \/ j > Len(s) THEN 0
  ELSE CASE s[j].k \in {"nl", "com"} -> Skip(s, j + 1)
         [] s[j].k = "end" -> 0
         [] s[j].k = "discard" -> Skip(s, Skip(s, j + 1))
         [] s[j].k = "meta" -> Skip(s, Skip(s, j + 1))
         [] s[j].k \in PrefixKinds \cup {"tag"} -> Skip(s, j + 1)
         [] s[j].k \in SeqKinds -> Close(s, j + 1, 1)
         [] OTHER -> j + 1

RECURSIVE NoDiscards(_, _)
NoDiscards(s, j) ==
  IF j > Len(s) THEN <<>>
  ELSE IF s[j].k = "discard" THEN LET e == Skip(s, j + 1) IN IF e = 0 THEN <<Mark("dangling", <<>>, 0)>> ELSE NoDiscards(s, e)
  ELSE <<s[j]>> \o NoDiscards(s, j + 1)

(* Lists that begin with comment (once those in them are gone) and are not *)
(* the operand of a prefix.                                                *)
RECURSIVE NoCommentForms(_, _), AllCommentForms(_)
NoCommentForms(s, j) ==
  LET first == FoldLeft(LAMBDA a, x : IF a = 0 /\ x > j /\ s[x].k \notin {"nl", "com"} THEN x ELSE a, 0, Upto(Len(s)))
      before == FoldLeft(LAMBDA a, x : IF x < j THEN x ELSE a, 0, Upto(Len(s)))
      operand == before > 0 /\ s[before].k \in PrefixKinds
  IN IF j > Len(s) THEN <<>>
     ELSE IF s[j].k = "list" /\ s[first].k = "sym" /\ s[first].v = CommentV /\ ~operand
     THEN NoCommentForms(s, Close(s, j + 1, 1))
     ELSE <<s[j]>> \o NoCommentForms(s, j + 1)

AllCommentForms(s) ==
  LET t == NoCommentForms(s, 1) IN IF t = s THEN s ELSE AllCommentForms(t)

Take(s, opt) ==
  LET a == IF opt.id THEN NoDiscards(s, 1) ELSE s
      b == IF opt.ns THEN a ELSE SelectSeq(a, LAMBDA m : m.k \notin {"nl", "com"})
  IN IF opt.ic THEN AllCommentForms(b) ELSE b

AllOptions == [ns : BOOLEAN, ic : BOOLEAN, id : BOOLEAN]

(* Line breaks and comments that a prefix skips depend on what is ignored  *)
(* between the prefix and its form, so they are compared only without.     *)
Bare(s) == SelectSeq(s, LAMBDA m : m.k \notin {"nl", "com"})

Right ==
  LET r == Read(text)
      s == Stream(r.nodes)
  IN r.ok =>
     /\ Ordered(s)
     /\ Complete(s, text)
     /\ LET q == Read(PrintTree(Term(r.nodes), Context(r.nodes, EmptyMap, EmptyMap, SP))) IN
        q.ok /\ Norm(Term(r.nodes)) = Norm(q.nodes)
     /\ \A opt \in AllOptions :
          LET o == ReadOpt(text, opt) IN
          o.ok => Bare(Stream(o.nodes)) = Bare(Take(s, opt))

Some == {"(", ")", "#_", "^", "#", "'", ";c" \o NL, "x ", "comment ", "[", "]"}
More == Some \cup {"~", "@", "#(", "{", "}", "#:a", "#=", NL, ";c\r"}
=============================================================================
