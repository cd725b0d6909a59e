-------------------------------- MODULE MCCxx --------------------------------
(* Exhaustive exploration of the life of C++ cube objects within small constants, and the properties of C21 over it. *)
EXTENDS HyperCV
CONSTANTS Ops, Handles, Dims, TypesUsed, MaxDepth, Pick(_)
VARIABLES ws, last
vars == <<ws, last>>
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Init == ws = EmptyWs /\ last = [op |-> "none"]
Pattern(t, n, k) == [p \in 1..n |-> IF t = 4 THEN <<2 * (p + 16 * k) - 1, 3>> ELSE p + 16 * k]
Waves(b, k) == [j \in 1..b |-> <<2 * (j + 8 * k) - 1, 5>>]
Xs == {h \in DOMAIN ws : ws[h].k = "X"}
Full == {h \in Xs : ws[h].e = 0}
Free == Handles \ DOMAIN ws
Call(o) == LET e == Eff(ws, o, NoWit) IN
           /\ ws' = IF e.out = "ok" THEN ApplyUpd(ws, e.upd, e.del) ELSE ws
           /\ last' = [o EXCEPT !.out = e.out]
\* calls given content: the supplied elements and wavelengths are objects of the workspace for the time of the call
With(o, t, n, b, k) ==
  LET src == [x \in {"xd", "xw"} |-> IF x = "xd" THEN [k |-> "B", t |-> t, d |-> Pattern(t, n, k)] ELSE [k |-> "B", t |-> 4, d |-> Waves(b, k)]]
      e == Eff([x \in DOMAIN ws \cup {"xd", "xw"} |-> IF x \in {"xd", "xw"} THEN src[x] ELSE ws[x]], o, NoWit)
  IN  /\ ws' = IF e.out = "ok" THEN ApplyUpd(ws, e.upd, e.del \ {"xd", "xw"}) ELSE ws
      /\ last' = [o EXCEPT !.out = e.out] @@ [dd |-> IF n > 0 /\ t \in Types THEN src["xd"].d ELSE <<>>, ww |-> src["xw"].d]
DoNew == "new" \in Ops /\ \E h \in Pick(Free), v \in Pick(0..3), s \in Pick(Dims), l \in Pick(Dims), b \in Pick(Dims), t \in Pick(TypesUsed), f \in Pick(Interleaves) :
        With([op |-> "newX", h |-> h, v |-> v, s |-> s, l |-> l, b |-> b, t |-> t, fm |-> f, data |-> IF v > 1 THEN "xd" ELSE Null, w |-> IF v > 2 THEN "xw" ELSE Null, out |-> ""], t, s * l * b, b, Cardinality(Xs))
DoCreate == "create" \in Ops /\ \E h \in Pick(Xs), v \in Pick(0..4), s \in Pick(Dims), l \in Pick(Dims), b \in Pick(Dims), t \in Pick(TypesUsed), f \in Pick(Interleaves) :
        With([op |-> "createX", h |-> h, v |-> v, s |-> s, l |-> l, b |-> b, t |-> t, fm |-> f, data |-> IF v > 2 THEN "xd" ELSE Null, w |-> IF v > 3 THEN "xw" ELSE Null, out |-> ""], t, s * l * b, b, 3)
DoSet == "set" \in Ops /\ \E h \in Pick(Full) : \E n \in Pick(0..Len(ws[h].d)) : With([op |-> "setdataX", h |-> h, n |-> n, t |-> ws[h].t, data |-> "xd", out |-> ""], ws[h].t, Len(ws[h].d), 0, 5)
DoWave == "set" \in Ops /\ \E h \in Pick(Full) : \E n \in Pick(0..ws[h].b) : With([op |-> "setwaveX", h |-> h, n |-> n, w |-> "xw", out |-> ""], 1, 0, ws[h].b, 5)
DoCopy == "copy" \in Ops /\ \E h \in Pick(Xs), g \in Pick(Free) : Call([op |-> "copyX", h |-> h, g |-> g, out |-> ""])
DoConv == "conv" \in Ops /\ \E h \in Pick(Full), g \in Pick(Free), fn \in Pick({"bil2bsq", "bil2bip", "bsq2bil", "bsq2bip", "bip2bsq", "bip2bil"}) :
        (fn \notin {"bil2bsq", "bil2bip"} \/ ws[h].f = "bil") /\ Call([op |-> "convX", h |-> h, g |-> g, fn |-> fn, out |-> ""])
DoTo == "conv" \in Ops /\ \E h \in Pick(Full), f \in Pick(Interleaves) : Call([op |-> "toX", h |-> h, fm |-> f, out |-> ""])
DoRange == "range" \in Ops /\ \E h \in Pick(Full), g \in Pick(Free) : \E r0 \in Pick(0..ws[h].l), r1 \in Pick(0..(ws[h].l + 1)), c0 \in Pick(0..ws[h].s), c1 \in Pick(0..(ws[h].s + 1)), b0 \in Pick(0..ws[h].b), b1 \in Pick(0..(ws[h].b + 1)) :
            Call([op |-> "rangeX", h |-> h, g |-> g, rg |-> <<r0, c0, b0, r1, c1, b1>>, out |-> ""])
DoRelease == "new" \in Ops /\ \E h \in Pick(Xs) : Call([op |-> "releaseX", h |-> h, out |-> ""])
DoDel == "new" \in Ops /\ \E h \in Pick(Xs) : Call([op |-> "delX", h |-> h, out |-> ""])
DoSave == "save" \in Ops /\ \E h \in Pick(Xs) : Call([op |-> "saveX", h |-> h, f |-> "f", e |-> "e", null |-> 0, out |-> ""])
DoRead == "save" \in Ops /\ \E g \in Pick(Free) : Call([op |-> "readX", h |-> g, f |-> "f", e |-> "e", out |-> ""])
DoOpen == "save" \in Ops /\ \E g \in Pick(Xs) : Call([op |-> "openX", h |-> g, f |-> "f", e |-> "e", out |-> ""])
DoCut == "save" \in Ops /\ "f" \in DOMAIN ws /\ \E n \in Pick(0..Len(ws["f"].d)) : Call([op |-> "cutfile", f |-> "f", n |-> n, out |-> ""])
DoReadSize == "save" \in Ops /\ "f" \in DOMAIN ws /\ \E g \in Pick(Free), s \in Pick(Dims), l \in Pick(Dims), b \in Pick(Dims), f \in Pick(Interleaves) :
            Call([op |-> "readsizeX", h |-> g, f |-> "f", s |-> s, l |-> l, b |-> b, t |-> ws["f"].t, fm |-> f, out |-> ""])
Next == DoNew \/ DoCreate \/ DoSet \/ DoWave \/ DoCopy \/ DoConv \/ DoTo \/ DoRange \/ DoRelease \/ DoDel \/ DoSave \/ DoRead \/ DoOpen \/ DoReadSize \/ DoCut
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= MaxDepth
View == ws

WellFormed(m) == m.k = "X" => IF m.e = 1 THEN m = XEmpty
                 ELSE m.s > 0 /\ m.l > 0 /\ m.b > 0 /\ m.t \in Types /\ m.f \in Interleaves /\ m.il = m.f /\ Len(m.d) = m.s * m.l * m.b /\ Len(m.w) = m.b /\ m.ds = Len(m.d) * m.es /\ m.es = ES(m.t)
TypeOK == \A h \in DOMAIN ws : WellFormed(ws[h])
Step(op) == last'.op = op /\ last'.out = "ok"
Others(touched) == \A h \in DOMAIN ws \ touched : h \in DOMAIN ws' /\ ws'[h] = ws[h]
CubeX(m) == Cube(AsH(m))
C21Step ==
  /\ Step("newX") => Others({}) /\ LET o == last' m == ws'[o.h] IN
       IF o.v = 0 THEN m.e = 1
       ELSE <<m.s, m.l, m.b, m.t, m.f>> = <<o.s, o.l, o.b, o.t, o.fm>> /\ m.d = (IF o.v > 1 THEN o.dd ELSE Const(o.s * o.l * o.b, Zero(o.t))) /\ m.w = (IF o.v > 2 THEN o.ww ELSE Const(o.b, Zero(4)))
  /\ Step("createX") => Others({last'.h}) /\ ws'[last'.h].e = 0 /\ LET o == last' m == ws'[o.h] IN
       o.v > 0 => <<m.s, m.l, m.b, m.t>> = <<o.s, o.l, o.b, o.t>> /\ (o.v > 2 => m.d = o.dd)
  /\ Step("copyX") => ws'[last'.g] = ws[last'.h] /\ Others({})
  /\ Step("convX") => CubeX(ws'[last'.g]) = CubeX(ws[last'.h]) /\ ws'[last'.g].w = ws[last'.h].w /\ ws'[last'.g].f = ConvTo(last'.fn) /\ Others({})
  /\ Step("toX") => CubeX(ws'[last'.h]) = CubeX(ws[last'.h]) /\ ws'[last'.h].f = last'.fm /\ ws'[last'.h].w = ws[last'.h].w /\ Others({last'.h})
  /\ Step("rangeX") => LET q == last'.rg m == ws[last'.h] n == ws'[last'.g] IN
       /\ n.l = q[4] - q[1] /\ n.s = q[5] - q[2] /\ n.b = q[6] - q[3] /\ n.f = m.f
       /\ \A c \in DOMAIN CubeX(n) : CubeX(n)[c] = CubeX(m)[<<c[1] + q[1], c[2] + q[2], c[3] + q[3]>>]
       /\ \A j \in 1..n.b : n.w[j] = m.w[j + q[3]] /\ Others({})
  /\ Step("releaseX") => ws'[last'.h] = XEmpty /\ Others({last'.h})
  /\ Step("saveX") => Others({"f", "e"})
  /\ (Step("readX") \/ Step("openX") \/ Step("readsizeX")) /\ "f" \in DOMAIN ws => LET m == ws'[last'.h] q == ws["f"].d IN
       m.e = 0 /\ (\A i \in 1..Len(m.d) : m.d[i] = IF i <= Len(q) THEN q[i] ELSE Zero(ws["f"].t)) /\ Others({last'.h})
  /\ Step("setdataX") => Others({last'.h}) /\ [ws'[last'.h] EXCEPT !.d = <<>>] = [ws[last'.h] EXCEPT !.d = <<>>]
P21 == [][C21Step]_vars
\* what was saved reads back as an object whose saving leaves the files as they are; a saved object is read back equal
P21Inv == "f" \in DOMAIN ws =>
            LET m == Eff(ws, [op |-> "readX", h |-> "zz", f |-> "f", e |-> "e"], NoWit).upd[1][2]
                again == Eff([h \in {"zz"} |-> m], [op |-> "saveX", h |-> "zz", f |-> "f", e |-> "e", null |-> 0], NoWit).upd
            IN  m.e = 0 /\ SubSeq(again[1][2].d, 1, Len(ws["f"].d)) = ws["f"].d /\ again[2][2] = ws["e"]
P21Same == \A h \in Full : LET u == Eff(ws, [op |-> "saveX", h |-> h, f |-> "f", e |-> "e", null |-> 0], NoWit).upd
                           IN  Eff([x \in {"f", "e"} |-> IF x = "f" THEN u[1][2] ELSE u[2][2]], [op |-> "readX", h |-> "zz", f |-> "f", e |-> "e"], NoWit).upd[1][2] = ws[h]
=============================================================================
