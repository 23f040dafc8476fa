SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Ops = {1, 2}
  Steps = 1
  Calls = 4
  Deep = 2
  Settings = {0, 1}
INVARIANTS Inv Hidden Seen
POSTCONDITION EachMistakeShows
CHECK_DEADLOCK FALSE
