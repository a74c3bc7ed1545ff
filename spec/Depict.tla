------------------------------- MODULE Depict -------------------------------
(***************************************************************************)
(* How a tree is depicted (Tree.String, Node.String), and the predicates   *)
(* on nodes.  A line is <<blanks ahead, text, quoted text, code of a       *)
(* quoted character or -1>>.                                               *)
(***************************************************************************)
EXTENDS Reader

Range1(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE All(_)
All(ns) == FoldLeft(LAMBDA a, n : Append(a, n) \o All(n.c), <<>>, ns)

DigitChar == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Decimal(_)
Decimal(n) == (IF n >= 10 THEN Decimal(n \div 10) ELSE <<>>) \o <<DigitChar[(n % 10) + 1]>>

(* Comments and line breaks are no forms.                                  *)
Forms(n) == Len(SelectSeq(n.c, LAMBDA x : x.k \notin {"nl", "com"}))

SeqWord == ("list" :> "list") @@ ("vec" :> "vector") @@ ("set" :> "set") @@ ("fn" :> "lambda")
        @@ ("rcond" :> "reader-cond") @@ ("rconds" :> "reader-cond-splice")
PrefixWord == ("quote" :> "quote") @@ ("squote" :> "syntax quote") @@ ("unq" :> "unquote") @@ ("unqs" :> "unquote splice")
           @@ ("deref" :> "deref") @@ ("meta" :> "metadata") @@ ("discard" :> "discard") @@ ("eval" :> "eval")
LiteralWord == ("sym" :> "sym") @@ ("kw" :> "keyword") @@ ("num" :> "num") @@ ("varq" :> "varquote") @@ ("tag" :> "tag")
QuotedWord == ("str" :> "string") @@ ("com" :> "comment") @@ ("regex" :> "regex")

LengthIs(k) == Chars("length=") \o Decimal(k) \o <<")">>
Line(n, d) ==
  LET l(t) == <<d, t, <<>>, -1>> IN
  CASE n.k \in DOMAIN SeqWord -> l(Chars(SeqWord[n.k]) \o <<"(">> \o LengthIs(Forms(n)))
    [] n.k = "map" -> l(Chars("map(") \o (IF n.v = <<>> THEN <<>> ELSE Chars("ns=") \o n.v \o Chars(", "))
                        \o LengthIs(Forms(n) \div 2))
    [] n.k \in DOMAIN PrefixWord -> l(Chars(PrefixWord[n.k]))
    [] n.k \in DOMAIN LiteralWord -> l(Chars(LiteralWord[n.k]) \o <<"(">> \o n.v \o <<")">>)
    [] n.k \in DOMAIN QuotedWord -> <<d, Chars(QuotedWord[n.k]), n.v, -1>>
    [] n.k = "char" -> LET v == CharVal(Tail(n.v)) IN
                       <<d, Chars("char"), <<>>, IF v \in 55296..57343 THEN 65533 ELSE v>>
    [] n.k = "nil" -> l(NilV)
    [] n.k = "bool" -> l(n.v)
    [] OTHER -> l(Chars("newline"))

RECURSIVE Depiction(_, _)
Depiction(ns, d) == FoldLeft(LAMBDA a, n : Append(a, Line(n, d)) \o Depiction(n.c, d + 2), <<>>, ns)

(* Symbol, Newline, Vector, Keyword, Comment, Semantic; FnFormSymbol       *)
(* without and with names, FnFormKeyword likewise.                         *)
Predicates(n, names) ==
  LET starts(k) == n.k = "list" /\ n.c # <<>> /\ n.c[1].k = k
      among(k) == starts(k) /\ (names = {} \/ n.c[1].v \in names)
  IN <<n.k = "sym", n.k = "nl", n.k = "vec", n.k = "kw", n.k = "com", n.k \notin {"nl", "com", "meta", "tag"},
       starts("sym"), among("sym"), starts("kw"), among("kw")>>
=============================================================================
