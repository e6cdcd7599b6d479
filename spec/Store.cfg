SPECIFICATION Spec
CONSTANTS Dirs = {"A"}
 Subs = {1}
 NMs = {1}
 Datas = {1, 2}
 Clss = {"std"}
 Wts = {0}
 Opts = {0}
 Objs = {1, 2}
 D = 3
 Emitting = FALSE
INVARIANTS FilesLatest ObjLatest
CHECK_DEADLOCK FALSE
