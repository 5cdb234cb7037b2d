SPECIFICATION Spec
CONSTANTS
  RootText <- GenText
  RootFile <- GenRoot
  FilesOf <- GenFiles
  DirsOf <- GenDirs
  BaseOf <- NoBase
INVARIANTS Inv RoundTrip Emit
PROPERTIES Immutable Forward
CHECK_DEADLOCK FALSE
