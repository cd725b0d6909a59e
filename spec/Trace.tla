-------------------------------- MODULE Trace --------------------------------
(* Trace validation: every recorded execution of the real library must be a behaviour of HyperCV.
   One trace per line of the file; each trace is validated as a separate initial state. *)
EXTENDS HyperCV, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, ws, verdict
vars == <<tid, i, ws, verdict>>
Ev == Traces[tid].ev
TraceInit == tid \in 1..Len(Traces) /\ i = 0 /\ ws = EmptyWs /\ verdict = "run"
\* one step of the trace: the recorded call, its outcome, its results and every object it changed
Consume == /\ verdict = "run" /\ i < Len(Ev)
           /\ LET ev == Ev[i + 1]
                  nws == ApplyUpd(ws, ev.chg, {ev.del[j] : j \in 1..Len(ev.del)})
              IN  IF Accepts(ws, ev.op, ev.out, ev.ret, nws)
                  THEN /\ i' = i + 1 /\ ws' = nws /\ verdict' = verdict
                  ELSE /\ verdict' = "rejected" /\ i' = i /\ ws' = ws
                       /\ PrintT(<<"REJECT", tid, i + 1>>)
           /\ tid' = tid
Finish == verdict = "run" /\ i = Len(Ev) /\ verdict' = "accepted" /\ UNCHANGED <<tid, i, ws>>
TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_vars
View == <<tid, i, verdict>>
=============================================================================
