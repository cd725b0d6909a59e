-------------------------------- MODULE Life --------------------------------
(* Ownership (C08).  The abstract state of an execution is the set of objects the caller owns.  A call may create
   objects and destroy the ones it is given for deletion or takes over; it may refuse (which ends the process); it never
   faults: no access to a released block or outside a block, no second release, no release of a block that is not the
   library's.  When everything still owned has been deleted once, the library holds no block and no open file.
   One recorded execution per line of the trace file. *)
EXTENDS Base, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, own, verdict
Ev == Traces[tid].ev
Init == tid \in 1..Len(Traces) /\ i = 0 /\ own = {} /\ verdict = "run"
Outcomes == {"ok", "exit", "hang"} \* a refusal or a call without end is another property's concern
Dels == {"deleteH", "deleteS", "deleteD", "freebuf", "vdel", "delX"}
Range1(q) == {q[j] : j \in 1..Len(q)}
\* what the call named for destruction, or took over (storage handed to an image becomes part of the image)
MayDestroy(o) == IF o.op = "end" THEN own ELSE IF o.op \in Dels THEN {o.h} ELSE IF o.op = "createS" THEN {o.data} ELSE IF o.op \in {"newX", "createX"} THEN {o.data, o.w} ELSE {}
Fault(ev) ==
  \/ ev.out \notin Outcomes
  \/ ev.out = "ok" /\ ~(Range1(ev.del) \subseteq MayDestroy(ev.op) /\ Range1(ev.del) \subseteq own)
  \/ ev.out = "ok" /\ ev.op.op \in Dels /\ ev.op.h # Null /\ ev.op.h \notin Range1(ev.del)
  \/ ev.op.op = "end" /\ (ev.ret.live # 0 \/ ev.ret.fds # 0)
  \/ \E c \in Range1(ev.chg) : c[2].k = "BAD" \* an object whose storage is not a live block of the right size
Consume == /\ verdict = "run" /\ i < Len(Ev)
           /\ LET ev == Ev[i + 1] IN
              IF Fault(ev) THEN verdict' = "rejected" /\ i' = i /\ own' = own /\ PrintT(<<"REJECT", tid, i + 1>>)
              ELSE verdict' = verdict /\ i' = i + 1 /\ own' = (own \cup {c[1] : c \in Range1(ev.chg)}) \ Range1(ev.del)
           /\ tid' = tid
Finish == verdict = "run" /\ i = Len(Ev) /\ verdict' = "accepted" /\ UNCHANGED <<tid, i, own>>
TraceSpec == Init /\ [][Consume \/ Finish]_<<tid, i, own, verdict>>
View == <<tid, i, verdict>>
=============================================================================
