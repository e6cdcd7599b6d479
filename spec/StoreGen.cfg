SPECIFICATION Spec
CONSTANTS Dirs = {"A", "B"}
 Subs = {1, 2}
 NMs = {0, 1, 3}
 Datas = {1, 2, 3}
 Clss = {"std", "str", "pod"}
 Wts = {0, 1}
 Opts = {0, 1, 2}
 Objs = {1, 2}
 D = 8
 Emitting = TRUE
INVARIANTS FilesLatest ObjLatest Emit
CHECK_DEADLOCK FALSE
