SPECIFICATION Spec
CONSTANTS Names = {"altitude", "extra"}
 Sizes = {2}
INVARIANTS ErrorIffMisfit ReadsBack OwnWins CopiedIfAsked Emit
PROPERTY Ends
CHECK_DEADLOCK FALSE
