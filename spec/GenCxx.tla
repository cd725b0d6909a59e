-------------------------------- MODULE GenCxx --------------------------------
(* Lives of C++ cube objects drawn by TLC's simulator, printed one JSON program per behaviour. *)
EXTENDS MCCxx, Json
CONSTANT Steps
VARIABLES hist, done
gvars == <<ws, last, hist, done>>
GenInit == Init /\ hist = <<>> /\ done = FALSE
Ended == Len(hist) > 0 /\ hist[Len(hist)].out = "exit"
GenStep == ~Ended /\ Len(hist) < Steps /\ Next /\ hist' = Append(hist, last') /\ done' = FALSE
GenDone == ~done /\ (Ended \/ Len(hist) = Steps) /\ done' = TRUE /\ UNCHANGED <<ws, last, hist>> /\ PrintT("PROG " \o ToJson(hist))
GenNext == GenStep \/ GenDone
GenSpec == GenInit /\ [][GenNext]_gvars
=============================================================================
