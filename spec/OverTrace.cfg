SPECIFICATION Spec
CONSTANTS
  RootText <- TraceText
  RootFile <- TraceRoot
  FilesOf <- TraceFiles
  DirsOf <- TraceDirs
  BaseOf <- TraceBase
INVARIANTS Inv Judge
CHECK_DEADLOCK FALSE
