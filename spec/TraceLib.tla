---- MODULE TraceLib ----
(* Scaffold of the trace specifications: one record of the implementation per step, verdict = set of <<id, clause>>. *)
LOCAL INSTANCE Json
LOCAL INSTANCE IOUtils
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
Trace == ndJsonDeserialize(IOEnv.TRACE)
Emit(bad) == JsonSerialize(IOEnv.OUT, SetToSeq(bad))
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
====
