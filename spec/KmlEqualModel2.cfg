CONSTANT MaxSteps = 3
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Reflexive Symmetric Identical SameView Exact Transitive Emit
