-------------------------------- MODULE Twin --------------------------------
(* Independence (C31), a property of pairs of executions: the same calls on the same arguments, run in two worlds that
   differ only in what they must not depend on (what fresh memory holds, where blocks are placed, what other calls on
   other objects come before and in between), have the same outcomes, results and effects, step by step; and in each
   world a call changes none but its output objects.  Each line of the trace file has the execution a, the execution b
   and at, the positions in b of a's calls. *)
EXTENDS Base, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tid, i, verdict
A == Traces[tid].a
B == Traces[tid].b
At == Traces[tid].at
Range1(q) == {q[j] : j \in 1..Len(q)}
\* the fields of a call that name what it may write
Outs(o) ==
  CASE o.op \in {"saveH", "saveX"} -> {"f", "e"} [] o.op = "writehdr" -> {"e"}
    [] o.op \in {"putfile", "cutfile", "writebmp"} -> {"f"}
    [] o.op \in {"buf", "freebuf", "fillS", "fillH", "createH", "deleteH", "deleteS", "deleteD", "convert2H", "S2band", "splice", "loadH", "loadsizeH", "loadtext", "createS", "readS", "readbmp", "createD",
                 "vnew", "vec", "vdel", "newX", "createX", "delX", "setdataX", "setwaveX", "toX", "releaseX", "openX", "readX", "opensizeX", "readsizeX", "readtextX"} -> {"h", "data", "w"}
    [] o.op \in {"matmul", "mattrans", "matcorr", "invert"} -> {"z"}
    [] o.op \in {"swaprows", "identity", "sortdown"} -> {"x"}
    [] o.op = "qr" -> {"q", "r"} [] o.op = "eigvec" -> {"v"}
    [] o.op = "end" -> {}
    [] OTHER -> {"g", "g2", "g3"}
Frame(o) == {o[f] : f \in Outs(o) \cap DOMAIN o}
Touched(ev) == {c[1] : c \in Range1(ev.chg)} \cup Range1(ev.del)
InFrame(ev) == ev.op.op = "end" \/ Touched(ev) \subseteq Frame(ev.op)
Sound(ev) == ev.out \in {"ok", "exit"} /\ InFrame(ev)
\* results, objects by name; the final clean-up and its counts belong to C08
Chg(ev) == [h \in {c[1] : c \in Range1(ev.chg)} |-> (CHOOSE c \in Range1(ev.chg) : c[1] = h)[2]]
SameEv(x, y) == x.op.op = y.op.op /\ x.out = y.out /\ (x.op.op = "end" \/ (x.ret = y.ret /\ Range1(x.del) = Range1(y.del) /\
                DOMAIN Chg(x) = DOMAIN Chg(y) /\ \A h \in DOMAIN Chg(x) : LET p == Chg(x)[h] q == Chg(y)[h] IN DOMAIN p = DOMAIN q /\ p.k = q.k /\ ("t" \in DOMAIN p => p.t = q.t) /\ \A f \in DOMAIN p : p[f] = q[f]))
Init == tid \in 1..Len(Traces) /\ i = 0 /\ verdict = "run"
\* the calls of b up to and including the one that is a's next
Upto(j) == IF j = 1 THEN 1 ELSE At[j - 1] + 1
Good(j) == /\ Sound(A[j]) /\ At[j] <= Len(B) /\ SameEv(A[j], B[At[j]])
           /\ \A k \in Upto(j)..At[j] : Sound(B[k])
Consume == /\ verdict = "run" /\ i < Len(A)
           /\ IF Good(i + 1) THEN verdict' = verdict /\ i' = i + 1
              ELSE verdict' = "rejected" /\ i' = i /\ PrintT(<<"REJECT", tid, i + 1>>)
           /\ tid' = tid
Finish == verdict = "run" /\ i = Len(A) /\ verdict' = "accepted" /\ UNCHANGED <<tid, i>>
TraceSpec == Init /\ [][Consume \/ Finish]_<<tid, i, verdict>>
View == <<tid, i, verdict>>
=============================================================================
