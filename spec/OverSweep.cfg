SPECIFICATION Spec
CONSTANTS
  RootText <- NoText
  RootFile <- NoRoot
  FilesOf <- NoText
  DirsOf <- NoText
  BaseOf <- NoText
INVARIANTS Judge Classes
CHECK_DEADLOCK FALSE
