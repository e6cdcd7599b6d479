SPECIFICATION Spec
CONSTANTS
 Objs = {1, 2}
 Bands = {1, 2}
 MaxLen = 6
INVARIANTS RecReads OwnLatest FilesLatest
PROPERTIES Kept
