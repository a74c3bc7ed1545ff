------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The scanner as a character-driven automaton.                            *)
(*                                                                         *)
(* A scanner state is a record                                             *)
(*   m    : mode (what is being scanned)                                   *)
(*   b    : index of the first character of the token being scanned        *)
(*   toks : tokens emitted so far                                          *)
(* A token is [t |-> type, i |-> first index, j |-> last index,            *)
(*             v |-> text].                                                *)
(***************************************************************************)
EXTENDS Text

Tok(t, i, j, s) == [t |-> t, i |-> i, j |-> j, v |-> SubSeq(s, i, j)]

LexInit == [m |-> "out", b |-> 1, toks |-> <<>>]

Single == ("'" :> "quote") @@ ("@" :> "at") @@ ("`" :> "backtick") @@ ("^" :> "caret")
          @@ ("{" :> "{") @@ ("[" :> "[") @@ ("(" :> "(")
          @@ ("}" :> "}") @@ ("]" :> "]") @@ (")" :> ")")
          @@ ("~" :> "tilde") @@ (NL :> "nl")
SingleChars == DOMAIN Single

(* Begin a token at character c = s[i]. *)
Outer(st, i, c, s) ==
  IF c \in SingleChars THEN [m |-> "out", b |-> i, toks |-> Append(st.toks, Tok(Single[c], i, i, s))]
  ELSE IF c \in Whitespace THEN [st EXCEPT !.m = "out"]
  ELSE [m |-> CASE c = ";" -> "com"
               [] c = DQ -> "str"
               [] c = BSL -> "chr0"
               [] c = ":" -> "kw"
               [] c = "#" -> "hash"
               [] c \in {"+", "-"} -> "sign"
               [] c \in Digits -> "num"
               [] OTHER -> "sym",
        b |-> i, toks |-> st.toks]

(* Emit the pending token (ending just before i) and then begin at c.      *)
Flush(st, t, i, c, s) ==
  Outer([st EXCEPT !.toks = Append(@, Tok(t, st.b, i - 1, s))], i, c, s)

Emit(st, t, i, s) == [m |-> "out", b |-> i, toks |-> Append(st.toks, Tok(t, st.b, i, s))]

LexErr(st, i, why) ==
  [m |-> "stop", b |-> st.b, toks |-> Append(st.toks, [t |-> "error", i |-> st.b, j |-> i, v |-> why])]

(* Consume one character c = s[i]. *)
LexStep(st, i, s) ==
  LET c == s[i] IN
  CASE st.m = "out"  -> Outer(st, i, c, s)
    [] st.m = "sym"  -> IF IsSymbolChar(c) THEN st ELSE Flush(st, "sym", i, c, s)
    [] st.m = "num"  -> IF IsSymbolChar(c) THEN st ELSE Flush(st, "num", i, c, s)
    [] st.m = "kw"   -> IF IsSymbolChar(c) THEN st ELSE Flush(st, "kw", i, c, s)
    [] st.m = "chr"  -> IF IsSymbolChar(c) THEN st ELSE Flush(st, "chr", i, c, s)
    [] st.m = "com"  -> IF c \in {CR, NL} THEN Flush(st, "com", i, c, s) ELSE st
    [] st.m = "str"  -> IF c = DQ THEN Emit(st, "str", i, s)
                        ELSE IF c = BSL THEN [st EXCEPT !.m = "esc"] ELSE st
    [] st.m = "esc"  -> [st EXCEPT !.m = "str"]
    [] st.m = "chr0" -> [st EXCEPT !.m = "chr"]
    [] st.m = "sign" -> IF c \in Digits THEN [st EXCEPT !.m = "num"]
                        ELSE IF IsSymbolChar(c) THEN [st EXCEPT !.m = "sym"]
                        ELSE Flush(st, "sym", i, c, s)
    [] st.m = "hash" ->
         CASE c \in {"{", "(", DQ} ->
                Outer([st EXCEPT !.toks = Append(@, Tok("disp", st.b, i, s))], i, c, s)
           [] c = "?" -> [st EXCEPT !.m = "hashq"]
           [] c = ":" -> [m |-> "kw", b |-> i, toks |-> Append(st.toks, Tok("disp", st.b, i, s))]
           [] c \in {"'", "_", "^", "="} -> Emit(st, "disp", i, s)
           [] c = "!" -> [st EXCEPT !.m = "com"]
           [] c = "<" -> LexErr(st, i, "unreadable")
           [] OTHER -> Flush(st, "hash", i, c, s)
    [] st.m = "hashq" -> IF c = "@" THEN Emit(st, "disp", i, s)
                         ELSE Flush(st, "disp", i, c, s)
    [] OTHER -> st  \* "stop"

(* End of input after n characters. *)
LexEnd(st, s) ==
  LET n == Len(s)
      fin(t) == Append(Append(st.toks, Tok(t, st.b, n, s)), Tok("eof", n + 1, n, s))
  IN CASE st.m = "out" -> Append(st.toks, Tok("eof", n + 1, n, s))
       [] st.m \in {"sym", "sign"} -> fin("sym")
       [] st.m = "num" -> fin("num")
       [] st.m = "kw"  -> fin("kw")
       [] st.m = "chr" -> fin("chr")
       [] st.m = "com" -> fin("com")
       [] st.m = "hash" -> fin("hash")
       [] st.m = "hashq" -> fin("disp")
       [] st.m = "chr0" -> LexErr(st, n, "character").toks
       [] st.m \in {"str", "esc"} -> LexErr(st, n, "string").toks
       [] OTHER -> st.toks

(* The input fails after n characters: what is being scanned is lost.      *)
LexFail(st, s) ==
  IF st.m = "stop" THEN st.toks
  ELSE Append(st.toks, [t |-> "error", i |-> Len(s) + 1, j |-> Len(s), v |-> "read"])

Scan(s) == FoldLeft(LAMBDA st, i : LexStep(st, i, s), LexInit, [i \in 1..Len(s) |-> i])

Lex(s) == LexEnd(Scan(s), s)
=============================================================================
