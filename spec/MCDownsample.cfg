SPECIFICATION Spec
CONSTANT Grids <- MCGrids
CONSTANT Fields <- MCFields
INVARIANT Streaming
INVARIANT Partition
INVARIANT Fractions
INVARIANT Wider
INVARIANT Emit
PROPERTY Terminates
