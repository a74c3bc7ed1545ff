------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* What the text of a configuration file means.                            *)
(*                                                                         *)
(* A configuration is                                                      *)
(*   ext : extensions of the files to take from directories (with the dot) *)
(*   over: indentation overrides, a function from names to styles          *)
(*   tf  : thread-first overrides, a function from names to styles         *)
(***************************************************************************)
EXTENDS Reader

NoNames == [x \in {} |-> ""]
DefaultExt == {Chars(".clj"), Chars(".cljs"), Chars(".cljc"), Chars(".edn")}
DefaultConfig == [ext |-> DefaultExt, over |-> NoNames, tf |-> NoNames]
Good(c) == [ok |-> TRUE, c |-> c]
Bad == [ok |-> FALSE, c |-> DefaultConfig]

KeyExt  == Chars(":extensions")
KeyOver == Chars(":indent-overrides")
KeyTF   == Chars(":thread-first-overrides")

(* Keywords to styles. *)
ConfigStyles ==
     (Chars(":normal") :> "normal") @@ (Chars(":list") :> "list") @@ (Chars(":list-body") :> "body")
  @@ (Chars(":let") :> "let") @@ (Chars(":letfn") :> "letfn") @@ (Chars(":for") :> "for")
  @@ (Chars(":deftype") :> "deftype") @@ (Chars(":cond0") :> "cond0") @@ (Chars(":cond1") :> "cond1")
  @@ (Chars(":cond2") :> "cond2") @@ (Chars(":cond4") :> "cond4")
ConfigTF == (Chars(":normal") :> "normal") @@ (Chars(":cond->") :> "cond->")

IsSequence(n) == n.k \in {"list", "vec"}
AllStrings(ns) == \A i \in 1..Len(ns) : ns[i].k = "str"

(* Names and styles by turns, the names alone or in a sequence.            *)
Overrides(n, styles) ==
  LET c == n.c
      half == [i \in 1..(Len(c) \div 2) |-> 2 * i - 1]
      names(x) == IF IsSequence(x) THEN x.c ELSE <<x>>
  IN IF \/ ~IsSequence(n) \/ Len(c) % 2 # 0
        \/ \E j \in 1..Len(half) : \/ ~AllStrings(names(c[half[j]]))
                                   \/ c[half[j] + 1].k # "kw"
                                   \/ c[half[j] + 1].v \notin DOMAIN styles
     THEN [ok |-> FALSE, f |-> NoNames]
     ELSE LET f == FoldLeft(LAMBDA a, i :
                      FoldLeft(LAMBDA b, x : (x.v :> c[i + 1].v) @@ b, a, names(c[i])), NoNames, half)
          IN [ok |-> TRUE, f |-> [x \in DOMAIN f |-> styles[f[x]]]]

(* One entry of the map, taking effect after those before it.              *)
ConfEntry(r, k, v) ==
  IF ~r.ok THEN r ELSE IF k.k # "kw" THEN Bad
  ELSE CASE k.v = KeyExt ->
              IF IsSequence(v) /\ AllStrings(v.c) THEN Good([r.c EXCEPT !.ext = {v.c[i].v : i \in 1..Len(v.c)}])
              ELSE Bad
         [] k.v = KeyOver -> LET o == Overrides(v, ConfigStyles) IN
                             IF o.ok THEN Good([r.c EXCEPT !.over = o.f]) ELSE Bad
         [] k.v = KeyTF   -> LET o == Overrides(v, ConfigTF) IN
                             IF o.ok THEN Good([r.c EXCEPT !.tf = o.f]) ELSE Bad
         [] OTHER -> Bad

ParseConfig(text) ==
  LET r == ReadOpt(text, [ns |-> FALSE, ic |-> FALSE, id |-> FALSE]) IN
  IF ~r.ok THEN Bad
  ELSE IF r.nodes = <<>> THEN Good(DefaultConfig)
  ELSE IF Len(r.nodes) > 1 \/ r.nodes[1].k # "map" \/ r.nodes[1].v # <<>> \/ Len(r.nodes[1].c) % 2 # 0 THEN Bad
  ELSE LET c == r.nodes[1].c IN
       FoldLeft(LAMBDA a, j : ConfEntry(a, c[2 * j - 1], c[2 * j]), Good(DefaultConfig),
                [j \in 1..(Len(c) \div 2) |-> j])
=============================================================================
