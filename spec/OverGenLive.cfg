SPECIFICATION Live
CONSTANTS
  RootText <- GenText
  RootFile <- GenRoot
  FilesOf <- GenFiles
  DirsOf <- GenDirs
  BaseOf <- NoBase
INVARIANTS Progress
PROPERTIES Ends
CHECK_DEADLOCK FALSE
