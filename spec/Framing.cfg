CONSTANTS
  MaxBuf = 3
  MaxLast = 1
  Kinds = {"msg", "empty", "json", "utf8", "rpc", "len", "nolen", "charset", "three", "junk"}
  Tag = "P14"
SPECIFICATION Spec
VIEW view
INVARIANT TypeOK
PROPERTIES Complete Clean
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Emit
