SPECIFICATION Spec
CONSTANT MaxDepth = 4
INVARIANTS Typed Headers Read Dynamic Cuts Layers
CHECK_DEADLOCK FALSE
