-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Characters, character classes and positions.                            *)
(*                                                                         *)
(* A text is a sequence of characters.  A printable ASCII character is     *)
(* itself (a one-character string); newline, tab and carriage return are   *)
(* "\n", "\t", "\r"; every other code point is the atom "u+XXXX" with its  *)
(* upper-case hexadecimal number.  The finite set of non-ASCII characters  *)
(* the specification knows is listed below with UTF-8 widths; a recorded   *)
(* trace that uses any other character is rejected as malformed.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NL  == "\n"
CR  == "\r"
TAB == "\t"
DQ  == "\""
BSL == "\\"
SP  == " "

Width1 == {"u+0000", "u+0001", "u+000B", "u+000C", "u+001C", "u+007F",
           "u+0002"}
Width2 == {"u+0085", "u+00A0", "u+00E9", "u+03BB",
           "u+0080", "u+00AD", "u+00B2", "u+01C5", "u+0300", "u+0660", "u+07FF"}
Width3 == {"u+1680", "u+2003", "u+2028", "u+3000", "u+4E16", "u+754C", "u+FEFF", "u+FFFD",
           "u+0800", "u+2000", "u+200B", "u+2029", "u+202F", "u+205F", "u+2160", "u+E000", "u+FF11", "u+FFFF"}
Width4 == {"u+1F600", "u+10348",
           "u+10000", "u+10FFFF"}

Width(c) == CASE c \in Width2 -> 2
              [] c \in Width3 -> 3
              [] c \in Width4 -> 4
              [] OTHER -> 1

(* Code points.                                                            *)
AsciiPrintable == " !" \o DQ \o "#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[" \o BSL
                  \o "]^_`abcdefghijklmnopqrstuvwxyz{|}~"
PrintableCode == [c \in {SubSeq(AsciiPrintable, i, i) : i \in 1..95} |->
                    31 + CHOOSE i \in 1..95 : SubSeq(AsciiPrintable, i, i) = c]
OtherCode == (NL :> 10) @@ (TAB :> 9) @@ (CR :> 13) @@ ("u+0000" :> 0) @@ ("u+0001" :> 1)
   @@ ("u+000B" :> 11) @@ ("u+000C" :> 12) @@ ("u+001C" :> 28) @@ ("u+007F" :> 127)
   @@ ("u+0085" :> 133) @@ ("u+00A0" :> 160) @@ ("u+00E9" :> 233) @@ ("u+03BB" :> 955)
   @@ ("u+1680" :> 5760) @@ ("u+2003" :> 8195) @@ ("u+2028" :> 8232) @@ ("u+3000" :> 12288)
   @@ ("u+4E16" :> 19990) @@ ("u+754C" :> 30028) @@ ("u+FEFF" :> 65279) @@ ("u+FFFD" :> 65533)
   @@ ("u+1F600" :> 128512) @@ ("u+10348" :> 66376)
   @@ ("u+0002" :> 2) @@ ("u+0080" :> 128) @@ ("u+00AD" :> 173) @@ ("u+00B2" :> 178)
   @@ ("u+01C5" :> 453) @@ ("u+0300" :> 768) @@ ("u+0660" :> 1632) @@ ("u+07FF" :> 2047)
   @@ ("u+0800" :> 2048) @@ ("u+2000" :> 8192) @@ ("u+200B" :> 8203) @@ ("u+2029" :> 8233)
   @@ ("u+202F" :> 8239) @@ ("u+205F" :> 8287) @@ ("u+2160" :> 8544) @@ ("u+E000" :> 57344)
   @@ ("u+FF11" :> 65297) @@ ("u+FFFF" :> 65535) @@ ("u+10000" :> 65536) @@ ("u+10FFFF" :> 1114111)
CodeTable == PrintableCode @@ OtherCode
Code(c) == CodeTable[c]
Known(text) == \A i \in 1..Len(text) : text[i] \in DOMAIN CodeTable

(* Lexicographic order by code point, as a strict order. *)
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] = b[i] THEN LessFrom(a, b, i + 1)
  ELSE Code(a[i]) < Code(b[i])
TextLess(a, b) == LessFrom(a, b, 1)

(* Unicode White_Space, as far as the known characters go, plus the comma. *)
Whitespace == {SP, NL, TAB, CR, ",", "u+000B", "u+000C",
               "u+0085", "u+00A0", "u+1680", "u+2003", "u+2028", "u+3000",
               "u+2000", "u+2029", "u+202F", "u+205F"}
UniSpace == Whitespace \ {","}

(* Characters that cannot continue a symbol, keyword, number or character. *)
Delims == {DQ, ";", "@", "^", "~", "(", ")", "[", "]", "{", "}", BSL}
NonSymbol == Whitespace \cup Delims
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}

IsSymbolChar(c) == c \notin NonSymbol

(* Turn a TLA+ string constant into a text. *)
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]

TextWidth(s) == FoldLeft(LAMBDA a, c : a + Width(c), 0, s)

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p

(* Index of the last / first occurrence of c in s, 0 if none. *)
LastIdx(s, c)  == FoldLeft(LAMBDA a, i : IF s[i] = c THEN i ELSE a, 0, [i \in 1..Len(s) |-> i])
FirstIdx(s, c) == FoldLeft(LAMBDA a, i : IF a = 0 /\ s[i] = c THEN i ELSE a, 0, [i \in 1..Len(s) |-> i])

(* Positions: the 1-based line, the 1-based byte column and the 0-based    *)
(* byte offset of every index 1..Len(s)+1.                                 *)
Positions(s) ==
  FoldLeft(LAMBDA ps, c :
             LET p == ps[Len(ps)] IN
             Append(ps, IF c = NL
                        THEN [o |-> p.o + 1, l |-> p.l + 1, c |-> 1]
                        ELSE [o |-> p.o + Width(c), l |-> p.l, c |-> p.c + Width(c)]),
           << [o |-> 0, l |-> 1, c |-> 1] >>, s)
=============================================================================
