CONSTANT MaxSteps = 2
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Reflexive Symmetric Identical SameView Exact Transitive Emit
