SPECIFICATION MSpec
CONSTANT MaxLen = 3
INVARIANTS Prefix Complete NeverFalseOk
