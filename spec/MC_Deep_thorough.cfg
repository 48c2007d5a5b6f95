SPECIFICATION Spec
CONSTANT MaxDepth = 5
INVARIANTS Typed Headers Read Dynamic Cuts Layers
CHECK_DEADLOCK FALSE
