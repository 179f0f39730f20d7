SPECIFICATION Spec
CONSTANTS Pos <- PosQuick MaxLinks = 3
INVARIANTS ZeroDiagonal Transpose Symmetric Triangle Flip Emit
CHECK_DEADLOCK FALSE
