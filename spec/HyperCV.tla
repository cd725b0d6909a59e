-------------------------------- MODULE HyperCV --------------------------------
(* The specification of the library: dispatch of a public call to its effect. *)
EXTENDS Cxx

\* w is the observed outcome, which fixes what the specification leaves open; deterministic calls ignore it
Eff(ws, o, w) ==
  CASE o.op \in CoreOps -> CoreEff(ws, o)
    [] o.op \in ProcOps -> ProcEff(ws, o, w)
    [] o.op \in AlgOps -> AlgEff(ws, o, w)
    [] o.op \in CxxOps -> CxxEff(ws, o)

(* Objects are compared field by field, discriminating fields first. *)
ObjEq(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ a.k = b.k
  /\ "t" \in DOMAIN a => a.t = b.t
  /\ \A f \in DOMAIN a \ {"d", "w"} : a[f] = b[f]
  /\ "w" \in DOMAIN a => a.w = b.w
  /\ "d" \in DOMAIN a => a.d = b.d
WsEq(a, b) == DOMAIN a = DOMAIN b /\ \A h \in DOMAIN a : ObjEq(a[h], b[h])
NoWit == [ok |-> FALSE]
RetOK(want, got) == \A f \in DOMAIN want : f \in DOMAIN got /\ got[f] = want[f]
\* nws is the observed workspace after the call, out/ret the observed outcome and results
Accepts(ws, o, out, ret, nws) ==
  LET e == Eff(ws, o, [ok |-> out = "ok", ret |-> ret, nws |-> nws]) IN
  /\ out = e.out
  /\ out = "ok" => RetOK(e.ret, ret) /\ WsEq(nws, ApplyUpd(ws, e.upd, e.del))
=============================================================================
