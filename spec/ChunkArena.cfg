SPECIFICATION Spec
CONSTANTS
 Sizes = {0, 1, 64, 4008, 4009, 4072, 4073, 8168, 8169}
 Depth = 4
 Chunk = 4096
 Lead = 24
 Spare = 64
 Emit = TRUE
INVARIANTS Inside Disjoint Listed
CHECK_DEADLOCK FALSE
