SPECIFICATION Spec
CONSTANT MaxSegs = 6
INVARIANTS Agrees Rootless NoDots Shorter Idempotent Order DirStaysDir
PROPERTIES Decreases
CHECK_DEADLOCK FALSE
