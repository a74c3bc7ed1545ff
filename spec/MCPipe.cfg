SPECIFICATION Spec
CONSTANTS
  Alphabet <- Small
  MaxLen = 3
  Texts <- AllTexts
  Opts <- AllOpts
INVARIANTS Result Outcome NoLoss Tokens
PROPERTY Ends
