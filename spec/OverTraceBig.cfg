SPECIFICATION Spec
CONSTANTS
  RootText <- TraceText
  RootFile <- TraceRoot
  FilesOf <- TraceFiles
  DirsOf <- TraceDirs
  BaseOf <- TraceBase
INVARIANT Judge
CHECK_DEADLOCK FALSE
