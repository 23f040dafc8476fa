SPECIFICATION Spec
CONSTANT MaxSegs = 4
INVARIANTS Agrees Rootless NoDots Shorter Idempotent Order DirStaysDir
PROPERTIES Decreases Terminates
CHECK_DEADLOCK FALSE
