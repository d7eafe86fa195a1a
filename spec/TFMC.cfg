INIT Init
NEXT Next
INVARIANTS Assoc Inverse Identity Action Rigid
