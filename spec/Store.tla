---- MODULE Store ----
(* Result directories and analysis objects.  A fit is a sequence of file operations: old mode files of the location are
   removed, then the files of every frequency (one per frequency, or one per mode and frequency) are written in any order,
   then eigenvalues, then the object is updated.  Between fits the user reads, changes what was returned, plots, changes
   directory, projects and reconstructs.  Invariants (when no fit is running): the files of a location are exactly those of
   its latest fit; an object's attributes are those of its latest fit; the block store only ever is reused for the record
   it was written from.  The history variable drives the conformance check (T_Store). *)
EXTENDS StoreLib, Json
CONSTANTS Dirs, Subs, NMs, Datas, Clss, Wts, Opts, Objs, D, Emitting
VARIABLES files, blocks, obj, run, hist, wd
vars == <<files, blocks, obj, run, hist, wd>>
Cfg == {c \in [dir : Dirs, sub : Subs, nm : NMs, full : BOOLEAN, mode : {"none", "save", "reuse"}, cls : Clss, w : Wts, opt : Opts] :
           (c.cls = "std" \/ c.mode = "none") /\ (c.cls # "pod" \/ (~c.full /\ c.sub = CHOOSE x \in Subs : TRUE))}
Cfg0 == CHOOSE c \in Cfg : TRUE
NoRun == [o |-> 0, c |-> Cfg0, d |-> 0, id |-> 0, todo |-> {}, ph |-> "idle"]
Locs == {Loc(c, d) : c \in Cfg, d \in Datas}
Names(c) == 1..(IF c.cls = "pod" THEN 1 ELSE IF c.full THEN 3 ELSE 2)
Blank == [m |-> <<>>, e |-> 0]
Init == /\ files = [x \in Locs |-> Blank] /\ blocks = [x \in Locs |-> NoBlocks]
        /\ obj = [o \in Objs |-> [id |-> 0, cfg |-> Cfg0, d |-> 0]] /\ run = NoRun /\ hist = <<>> /\ wd = 0
Idle == run.ph = "idle"
CanReuse(c, d) == c.mode # "reuse" \/ blocks[Loc(c, d)] \in {NoBlocks, BlockKey(c, d)}
Start(o, c, d, new) ==
  /\ Idle /\ Len(hist) < D /\ CanReuse(c, d)
  /\ hist' = Append(hist, [a |-> "fit", o |-> o, new |-> new, c |-> c, d |-> d])
  /\ run' = [o |-> o, c |-> c, d |-> d, id |-> Len(hist) + 1, todo |-> Names(c), ph |-> "clean"]
  /\ UNCHANGED <<files, blocks, obj, wd>>
RL == Loc(run.c, run.d)
Clean == run.ph = "clean" /\ files' = [files EXCEPT ![RL].m = <<>>] /\ run' = [run EXCEPT !.ph = "write"]
         /\ UNCHANGED <<blocks, obj, hist, wd>>
WriteMode == run.ph = "write" /\ (\E f \in run.todo :
               /\ files' = [files EXCEPT ![RL].m = [g \in DOMAIN @ \cup {f} |-> IF g = f THEN run.id ELSE @[g]]]
               /\ run' = [run EXCEPT !.todo = @ \ {f}])
             /\ UNCHANGED <<blocks, obj, hist, wd>>
Finish == /\ run.ph = "write" /\ run.todo = {}
          /\ files' = [files EXCEPT ![RL].e = run.id]
          /\ blocks' = (IF run.c.mode = "save" THEN [blocks EXCEPT ![RL] = BlockKey(run.c, run.d)] ELSE blocks)
          /\ obj' = [obj EXCEPT ![run.o] = [id |-> run.id, cfg |-> run.c, d |-> run.d]]
          /\ run' = NoRun /\ UNCHANGED <<hist, wd>>
Pick(S) == IF Emitting THEN {RandomElement(S), RandomElement(S)} ELSE S
\* when generating, half of the fits go to a location that is in use
Used == {c \in Cfg : \E i \in 1..Len(hist) : hist[i].a = "fit" /\ hist[i].c.dir = c.dir /\ hist[i].c.sub = c.sub /\ hist[i].c.cls = c.cls}
FitNew == \E o \in Objs, c \in Pick(Cfg) \cup (IF Emitting /\ Used # {} THEN Pick(Used) ELSE {}), d \in Datas : Start(o, c, d, TRUE)
FitAgain == \E o \in Objs, d \in Datas : obj[o].id # 0 /\ Start(o, obj[o].cfg, d, FALSE)
Touch(e) == Idle /\ Len(hist) < D /\ hist' = Append(hist, e) /\ UNCHANGED <<files, blocks, obj, run>>
Read == \E o \in Objs, mut \in BOOLEAN, all \in BOOLEAN : obj[o].id # 0 /\ Touch([a |-> "read", o |-> o, mut |-> mut, all |-> all]) /\ UNCHANGED wd
Plot == \E o \in Objs : obj[o].id # 0 /\ obj[o].cfg.cls # "pod" /\ Touch([a |-> "plot", o |-> o]) /\ UNCHANGED wd
Chdir == Len(hist) > 0 /\ hist[Len(hist)].a # "chdir" /\ Touch([a |-> "chdir", o |-> 0]) /\ wd' = 1 - wd
Project == \E o \in Objs, d \in Datas : obj[o].id # 0 /\ Touch([a |-> "project", o |-> o, d |-> d]) /\ UNCHANGED wd
Next == FitNew \/ FitAgain \/ Clean \/ WriteMode \/ Finish \/ Read \/ Plot \/ Chdir \/ Project
Spec == Init /\ [][Next]_vars
Latest(x) == LET s == {i \in 1..Len(hist) : hist[i].a = "fit" /\ Loc(hist[i].c, hist[i].d) = x} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
LatestOf(o) == LET s == {i \in 1..Len(hist) : hist[i].a = "fit" /\ hist[i].o = o} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : j <= i
FilesLatest == Idle => \A x \in Locs : LET i == Latest(x) IN
    /\ files[x].e = i
    /\ (i = 0 => files[x].m = <<>>)
    /\ (i # 0 => DOMAIN files[x].m = Names(hist[i].c) /\ \A f \in DOMAIN files[x].m : files[x].m[f] = i)
ObjLatest == Idle => \A o \in Objs : obj[o].id = LatestOf(o)
Emit == ~Emitting \/ ~Idle \/ Len(hist) < D \/ PrintT("HIST " \o ToJson(hist))
====
