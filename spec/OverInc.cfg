SPECIFICATION Spec
CONSTANTS
  RootText <- IncText
  RootFile <- IncRoot
  FilesOf <- IncFiles
  DirsOf <- IncDirs
  BaseOf <- NoBase
INVARIANTS Inv CycleVerdict Emit
PROPERTIES Immutable Forward
CHECK_DEADLOCK FALSE
