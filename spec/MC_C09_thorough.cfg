SPECIFICATION Spec
CONSTANTS Pos <- PosThorough MaxLinks = 3
INVARIANTS ZeroDiagonal Transpose Symmetric Triangle Flip Emit
CHECK_DEADLOCK FALSE
