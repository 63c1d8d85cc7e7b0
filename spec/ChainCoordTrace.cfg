SPECIFICATION TSpec
INVARIANTS Lossless Canonical
