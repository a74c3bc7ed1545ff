------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The parser as a pushdown automaton over the tokens of module Lexer.     *)
(*                                                                         *)
(* A node is [k |-> kind, v |-> text, c |-> children, i |-> start index].  *)
(* Kinds (all node types of the implementation):                           *)
(*   sym kw num bool nil char str regex com nl tag varq        (leaves)    *)
(*   list vec map set fn rcond rconds                          (sequences) *)
(*   quote squote unq unqs deref meta discard eval             (prefixes)  *)
(*                                                                         *)
(* An option record: [ns |-> keep comments and newlines,                   *)
(*                    ic |-> ignore (comment ...) forms,                   *)
(*                    id |-> ignore discarded forms].                      *)
(*                                                                         *)
(* A parser state is                                                       *)
(*   st   : stack of open frames, the bottom one being the file            *)
(*   ex   : what a dispatch token demands of the next token ("" : nothing) *)
(*   xi   : start index of that dispatch token                             *)
(*   fn   : TRUE inside a function literal                                 *)
(*   er   : <<>> or << error class, index, kind of fault, offending token >>*)
(*   done : TRUE once the end of the file has been reached without error   *)
(* A frame is [k, i, v, c, m]: a node under construction; m counts the     *)
(* forms that an ignored discard still has to swallow (-1: its operand).   *)
(***************************************************************************)
EXTENDS Lexer

FullOpt == [ns |-> TRUE, ic |-> FALSE, id |-> FALSE]

SeqKinds == {"list", "vec", "map", "set", "fn", "rcond", "rconds"}
DropKinds == {"quote", "squote", "unq", "unqs", "deref"} \* prefixes that skip comments
KeepKinds == {"meta", "discard", "eval"}                 \* prefixes that may hold one
PrefixKinds == DropKinds \cup KeepKinds

Closer == [k \in SeqKinds |-> CASE k = "vec" -> "]" [] k \in {"map", "set"} -> "}" [] OTHER -> ")"]

Node(k, v, c, i) == [k |-> k, v |-> v, c |-> c, i |-> i]
Frame(k, i, v) == [k |-> k, i |-> i, v |-> v, c |-> <<>>, m |-> -1]

NilV == Chars("nil")  TrueV == Chars("true")  FalseV == Chars("false")
CommentV == Chars("comment")

SymNode(t) ==
  CASE t.v = NilV -> Node("nil", <<>>, <<>>, t.i)
    [] t.v = TrueV \/ t.v = FalseV -> Node("bool", t.v, <<>>, t.i)
    [] OTHER -> Node("sym", t.v, <<>>, t.i)

----------------------------------------------------------------------------
(* Character literals. *)
NamedChar == (Chars("newline") :> 10) @@ (Chars("space") :> 32) @@ (Chars("tab") :> 9)
          @@ (Chars("formfeed") :> 12) @@ (Chars("backspace") :> 8) @@ (Chars("return") :> 13)

DigitVal == [c \in Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"} |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
     [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
     [] c \in {"a","A"} -> 10 [] c \in {"b","B"} -> 11 [] c \in {"c","C"} -> 12
     [] c \in {"d","D"} -> 13 [] c \in {"e","E"} -> 14 [] OTHER -> 15]

(* -1 unless s consists of digits of the base.                             *)
NumVal(s, base) ==
  IF s = <<>> THEN -1
  ELSE FoldLeft(LAMBDA a, c : IF a < 0 \/ c \notin DOMAIN DigitVal THEN -1
                              ELSE IF DigitVal[c] >= base THEN -1 ELSE a * base + DigitVal[c], 0, s)

(* "" if the literal (text after the backslash) is valid.  Lengths are in  *)
(* bytes.                                                                  *)
CharFault(s) ==
  CASE Len(s) = 1 -> ""
    [] s \in DOMAIN NamedChar -> ""
    [] Len(s) > 1 /\ s[1] = "o" -> IF TextWidth(s) = 4 /\ NumVal(Tail(s), 8) >= 0 THEN "" ELSE "octal"
    [] Len(s) > 1 /\ s[1] = "u" -> IF TextWidth(s) = 5 /\ NumVal(Tail(s), 16) >= 0 THEN "" ELSE "unicode"
    [] OTHER -> "character"

CharVal(s) ==
  CASE Len(s) = 1 -> Code(s[1])
    [] s \in DOMAIN NamedChar -> NamedChar[s]
    [] s[1] = "o" -> NumVal(Tail(s), 8)
    [] OTHER -> NumVal(Tail(s), 16)

----------------------------------------------------------------------------
(* How many of the following forms belong to node n.                       *)
RECURSIVE Missing(_), MissingOperand(_)
Missing(n) ==
  CASE n.k = "tag" -> 1
    [] n.k = "meta" -> 1 + MissingOperand(n.c[1])
    [] n.k \in PrefixKinds -> MissingOperand(n.c[1])
    [] OTHER -> 0
MissingOperand(n) ==
  CASE n.k = "com" -> 1
    [] n.k = "discard" -> 1 + Missing(n)
    [] OTHER -> Missing(n)

IsCommentForm(n) ==
  LET c == SelectSeq(n.c, LAMBDA x : x.k \notin {"nl", "com"}) IN
  n.k = "list" /\ c # <<>> /\ c[1].k = "sym" /\ c[1].v = CommentV

Include(n, opt) ==
  /\ ~(opt.ic /\ IsCommentForm(n))
  /\ ~(opt.id /\ n.k = "discard")
  /\ opt.ns \/ n.k \notin {"com", "nl"}

RdInit == [st |-> <<Frame("top", 1, <<>>)>>, ex |-> "", xi |-> 0, fn |-> FALSE, er |-> <<>>, done |-> FALSE]

Top(s) == s.st[Len(s.st)]
Push(s, f) == [s EXCEPT !.st = Append(@, f)]
Pop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]

(* Hand the complete node n to the innermost frame. *)
RECURSIVE Deliver(_, _, _)
Deliver(s, n, opt) ==
  LET f == Top(s)
      wrap == Deliver(Pop(s), Node(f.k, <<>>, <<n>>, f.i), opt)
      skip == opt.id /\ n.k = "discard"
  IN
  CASE f.k \in SeqKinds \cup {"top"} ->
         IF Include(n, opt) THEN [s EXCEPT !.st[Len(s.st)].c = Append(@, n)] ELSE s
    [] f.k \in DropKinds -> IF n.k \in {"nl", "com"} \/ skip THEN s ELSE wrap
    [] f.k = "discard" /\ opt.id ->
         IF n.k = "nl" \/ skip \/ (n.k = "com" /\ (f.m >= 0 \/ ~opt.ns)) THEN s
         ELSE LET m == IF f.m < 0 THEN MissingOperand(n) ELSE f.m - 1 + Missing(n)
                  op == IF f.m < 0 THEN <<n>> ELSE f.c
              IN IF m = 0 THEN Deliver(Pop(s), Node("discard", <<>>, op, f.i), opt)
                 ELSE [s EXCEPT !.st[Len(s.st)].m = m, !.st[Len(s.st)].c = op]
    [] OTHER -> IF n.k = "nl" \/ skip \/ (n.k = "com" /\ ~opt.ns) THEN s ELSE wrap

Fault(s, class, i, why, v) == [s EXCEPT !.er = <<class, i, why, v>>]
RdErr(s, class, i) == Fault(s, class, i, class, <<>>)
RdFault(s, i, why) == Fault(s, "other", i, why, <<>>)
Unexpected(s, t) == Fault(s, "other", t.i, "token", t.v)

PrefixOf == ("quote" :> "quote") @@ ("backtick" :> "squote") @@ ("tilde" :> "unq")
         @@ ("at" :> "deref") @@ ("caret" :> "meta")
OpenOf == ("(" :> "list") @@ ("[" :> "vec") @@ ("{" :> "map")

Inner(v) == SubSeq(v, 2, Len(v) - 1)

(* A token in the ordinary context. *)
Plain(s, t, opt) ==
  CASE t.t = "sym" -> Deliver(s, SymNode(t), opt)
    [] t.t \in {"kw", "num", "com"} -> Deliver(s, Node(t.t, t.v, <<>>, t.i), opt)
    [] t.t = "nl"  -> Deliver(s, Node("nl", <<>>, <<>>, t.i), opt)
    [] t.t = "str" -> Deliver(s, Node("str", Inner(t.v), <<>>, t.i), opt)
    [] t.t = "chr" -> IF CharFault(Tail(t.v)) = "" THEN Deliver(s, Node("char", t.v, <<>>, t.i), opt)
                      ELSE RdFault(s, t.i, CharFault(Tail(t.v)))
    [] t.t = "at" /\ Top(s).k = "unq" /\ Top(s).i + 1 = t.i ->
         [s EXCEPT !.st[Len(s.st)].k = "unqs"]
    [] t.t \in DOMAIN PrefixOf -> Push(s, Frame(PrefixOf[t.t], t.i, <<>>))
    [] t.t \in DOMAIN OpenOf -> Push(s, Frame(OpenOf[t.t], t.i, <<>>))
    [] t.t \in {")", "]", "}"} ->
         LET f == Top(s) IN
         IF f.k \in SeqKinds /\ Closer[f.k] = t.t
         THEN Deliver([Pop(s) EXCEPT !.fn = IF f.k = "fn" THEN FALSE ELSE @],
                      Node(f.k, f.v, f.c, f.i), opt)
         ELSE Unexpected(s, t)
    [] t.t = "hash" -> [s EXCEPT !.ex = "tag", !.xi = t.i]
    [] t.t = "disp" ->
         LET d == t.v[2] IN
         CASE d = "(" -> IF s.fn THEN RdFault(s, t.i, "nest") ELSE [s EXCEPT !.ex = "fn", !.xi = t.i, !.fn = TRUE]
           [] d = "{" -> [s EXCEPT !.ex = "set", !.xi = t.i]
           [] d = DQ  -> [s EXCEPT !.ex = "regex", !.xi = t.i]
           [] d = "?" -> [s EXCEPT !.ex = IF Len(t.v) = 3 THEN "rconds" ELSE "rcond", !.xi = t.i]
           [] d = ":" -> [s EXCEPT !.ex = "ns", !.xi = t.i]
           [] d = "'" -> [s EXCEPT !.ex = "varq", !.xi = t.i]
           [] d = "^" -> Push(s, Frame("meta", t.i, <<>>))
           [] d = "_" -> Push(s, Frame("discard", t.i, <<>>))
           [] OTHER   -> Push(s, Frame("eval", t.i, <<>>))
    [] t.t = "eof" -> IF Len(s.st) = 1 THEN [s EXCEPT !.done = TRUE] ELSE RdErr(s, "eof", t.i)

(* A token after a dispatch token. *)
Expected(s, t, opt) ==
  LET r == [s EXCEPT !.ex = ""]
      bad == IF t.t = "eof" THEN RdErr(s, "eof", t.i)
             ELSE IF s.ex \in {"rcond", "rconds"} THEN RdFault(s, t.i, "conditional")
             ELSE IF s.ex \in {"ns", "nsmap"} THEN RdFault(s, t.i, "map")
             ELSE Unexpected(s, t)
  IN
  CASE s.ex \in {"fn", "rcond", "rconds"} -> IF t.t = "(" THEN Push(r, Frame(s.ex, s.xi, <<>>)) ELSE bad
    [] s.ex = "set"   -> IF t.t = "{" THEN Push(r, Frame("set", s.xi, <<>>)) ELSE bad
    [] s.ex = "regex" -> IF t.t = "str" THEN Deliver(r, Node("regex", Inner(t.v), <<>>, s.xi), opt) ELSE bad
    [] s.ex = "ns"    -> IF t.t = "kw" THEN [s EXCEPT !.ex = "nsmap", !.st = Append(@, Frame("map", s.xi, t.v))] ELSE bad
    [] s.ex = "nsmap" -> IF t.t = "{" THEN r ELSE bad
    [] s.ex \in {"tag", "varq"} -> IF t.t = "sym" THEN Deliver(r, Node(s.ex, t.v, <<>>, s.xi), opt) ELSE bad

RdStep(s, t, opt) ==
  IF s.er # <<>> \/ s.done THEN s
  ELSE IF t.t = "error" THEN (CASE t.v = "string" -> RdErr(s, "eof", t.i) [] t.v = "read" -> RdErr(s, "read", t.i) [] OTHER -> RdFault(s, t.i, t.v))
  ELSE IF s.ex # "" THEN Expected(s, t, opt)
  ELSE Plain(s, t, opt)

Parse(toks, opt) == FoldLeft(LAMBDA s, t : RdStep(s, t, opt), RdInit, toks)

(* [ok, nodes, er] *)
ReadOpt(text, opt) ==
  LET s == Parse(Lex(text), opt) IN
  [ok |-> s.er = <<>>, nodes |-> IF s.er = <<>> THEN s.st[1].c ELSE <<>>, er |-> s.er]

Read(text) == ReadOpt(text, FullOpt)

(* Preorder list of a forest: << <<kind, number of children, text, start>>, ... >> *)
RECURSIVE Pre(_)
Pre(ns) == FoldLeft(LAMBDA a, n : a \o << <<n.k, Len(n.c), n.v, n.i>> >> \o Pre(n.c), <<>>, ns)
=============================================================================
