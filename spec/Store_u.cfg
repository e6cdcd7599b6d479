SPECIFICATION Spec
CONSTANTS Dirs = {"A", "B"}
 Subs = {1, 2}
 NMs = {1}
 Datas = {1, 3}
 Clss = {"std", "str", "pod"}
 Wts = {0}
 Opts = {0}
 Objs = {1}
 D = 2
 Emitting = FALSE
INVARIANTS FilesLatest ObjLatest
CHECK_DEADLOCK FALSE
