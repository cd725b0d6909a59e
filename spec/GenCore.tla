-------------------------------- MODULE GenCore --------------------------------
(* Behaviours of the core specification, drawn by TLC's simulator and printed one JSON program per behaviour;
   tools/check.py replays them on the real library and validates the recorded traces against HyperCV. *)
EXTENDS MCCore, Json
CONSTANT Steps
VARIABLES hist, done
gvars == <<ws, last, hist, done>>
\* the concrete arguments of a call, with the data the specification chose for it
Concrete(o) == IF o.op # "createH" THEN o
               ELSE [op |-> "createH", h |-> o.h, s |-> o.s, l |-> o.l, b |-> o.b, t |-> o.t, il |-> o.il, v |-> o.v, out |-> o.out,
                     d |-> IF o.v = 1 /\ o.s > 0 /\ o.l > 0 /\ o.b > 0 /\ o.t \in Types THEN Pattern(o.t, o.s * o.l * o.b, o.k) ELSE <<>>,
                     wv |-> IF o.v = 1 /\ o.b > 0 THEN Waves(o.b, o.k) ELSE <<>>]
GenInit == Init /\ hist = <<>> /\ done = FALSE
Ended == Len(hist) > 0 /\ hist[Len(hist)].out = "exit"
GenStep == ~Ended /\ Len(hist) < Steps /\ Next /\ hist' = Append(hist, Concrete(last')) /\ done' = FALSE
GenDone == ~done /\ (Ended \/ Len(hist) = Steps) /\ done' = TRUE /\ UNCHANGED <<ws, last, hist>> /\ PrintT("PROG " \o ToJson(hist))
GenNext == GenStep \/ GenDone
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
