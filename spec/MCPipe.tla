------------------------------- MODULE MCPipe -------------------------------
EXTENDS Pipe
CONSTANTS Alphabet, MaxLen
AllTexts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
AllOpts == {FullOpt, [ns |-> FALSE, ic |-> TRUE, id |-> TRUE]}
Small == {"a", "(", ")", "{", "}", "#", "@", "~", "^", "_", ":", ";", NL, SP, BSL, DQ, "?"}
=============================================================================
