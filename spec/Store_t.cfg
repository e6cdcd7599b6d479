SPECIFICATION Spec
CONSTANTS Dirs = {"A"}
 Subs = {1}
 NMs = {1, 3}
 Datas = {1, 2}
 Clss = {"std"}
 Wts = {0}
 Opts = {0}
 Objs = {1}
 D = 4
 Emitting = FALSE
INVARIANTS FilesLatest ObjLatest
CHECK_DEADLOCK FALSE
