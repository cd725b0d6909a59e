-------------------------------- MODULE MCCore --------------------------------
(* Exhaustive exploration of the core state machine within small constants, and the properties of C01-C05,
   C07-C09 stated over it.  The actions are those of HyperCV; nothing is re-specified here. *)
EXTENDS HyperCV
CONSTANTS Ops,        \* which calls are explored
          Handles, Dims, TypesUsed, MaxDepth,
          Pick(_)     \* All(S) when exploring exhaustively, One(S) when drawing a behaviour
VARIABLES ws, last
vars == <<ws, last>>
All(S) == S
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
NoOp == [op |-> "none"]
Init == ws = EmptyWs /\ last = NoOp
\* element p of object number k: all distinct, so a misplaced element is always visible
Pattern(t, n, k) == [p \in 1..n |-> IF t = 4 THEN <<2 * (p + 16 * k) - 1, 3>> ELSE p + 16 * k]
Waves(b, k) == [j \in 1..b |-> <<2 * (j + 8 * k) - 1, 5>>]
Free == Handles \ DOMAIN ws
Hs == {h \in DOMAIN ws : ws[h].k = "H"}
Ss == {h \in DOMAIN ws : ws[h].k = "S"}
Files == {h \in DOMAIN ws : ws[h].k = "F"}
\* a call through the dispatcher of the specification; refusals leave the state (the process ends)
Call(o) == LET e == Eff(ws, o, NoWit) IN
           /\ ws' = IF e.out = "ok" THEN ApplyUpd(ws, e.upd, e.del) ELSE ws
           /\ last' = [o EXCEPT !.out = e.out]
Create == "create" \in Ops /\ \E h \in Pick(Free), s \in Pick(Dims), l \in Pick(Dims), b \in Pick(Dims), t \in Pick(TypesUsed), il \in Pick(Interleaves), v \in Pick({0, 1}) :
            LET k == Cardinality(Hs)
                src == [x \in {"xd", "xw"} |-> IF x = "xd" THEN [k |-> "B", t |-> t, d |-> Pattern(t, s * l * b, k)] ELSE [k |-> "B", t |-> 4, d |-> Waves(b, k)]]
                o == [op |-> "createH", h |-> h, s |-> s, l |-> l, b |-> b, t |-> t, il |-> il, data |-> IF v = 1 THEN "xd" ELSE Null, w |-> IF v = 1 THEN "xw" ELSE Null, plain |-> 0]
                e == Eff([x \in DOMAIN ws \cup {"xd", "xw"} |-> IF x \in {"xd", "xw"} THEN src[x] ELSE ws[x]], o, NoWit)
            IN  /\ ws' = IF e.out = "ok" THEN ApplyUpd(ws, e.upd, e.del) ELSE ws
                /\ last' = [op |-> "createH", h |-> h, s |-> s, l |-> l, b |-> b, t |-> t, il |-> il, v |-> v, k |-> k, out |-> e.out]
Conv == "conv" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Free), fn \in Pick({"bil2bsq", "bil2bip", "bsq2bil", "bsq2bip", "bip2bsq", "bip2bil"}) : Call([op |-> "convH", h |-> h, g |-> g, fn |-> fn, out |-> ""])
Convert2 == "convert2" \in Ops /\ \E h \in Pick(Hs), il \in Pick(Interleaves) : Call([op |-> "convert2H", h |-> h, il |-> il, out |-> ""])
DoRange == "range" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Free) : \E r0 \in Pick(0..ws[h].l), r1 \in Pick(0..(ws[h].l + 1)), c0 \in Pick(0..ws[h].s), c1 \in Pick(0..(ws[h].s + 1)), b0 \in Pick(0..ws[h].b), b1 \in Pick(0..(ws[h].b + 1)) :
            Call([op |-> "rangeH", h |-> h, g |-> g, rg |-> <<r0, c0, b0, r1, c1, b1>>, out |-> ""])
Copy == "copy" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Free) : Call([op |-> "copyH", h |-> h, g |-> g, out |-> ""])
CopyTo == "copyto" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Hs) : Call([op |-> "copytoH", h |-> h, g |-> g, out |-> ""])
CopyWave == "copyto" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Hs) : Call([op |-> "copywaveH", h |-> h, g |-> g, out |-> ""])
Fill == "fill" \in Ops /\ \E h \in Pick(Hs) : Call([op |-> "fillH", h |-> h, d |-> Pattern(ws[h].t, Len(ws[h].d), 5), out |-> ""])
Delete == "delete" \in Ops /\ \E h \in Pick(Hs \cup Ss) : Call([op |-> IF ws[h].k = "H" THEN "deleteH" ELSE "deleteS", h |-> h, out |-> ""])
Save == "save" \in Ops /\ \E h \in Pick(Hs) : Call([op |-> "saveH", h |-> h, f |-> "f", e |-> "e", out |-> ""])
Load == "save" \in Ops /\ \E g \in Pick(Free) : Call([op |-> "loadH", h |-> g, f |-> "f", e |-> "e", out |-> ""])
LoadSize == "save" \in Ops /\ \E g \in Pick(Free), s \in Pick(Dims), l \in Pick(Dims), b \in Pick(Dims), il \in Pick(Interleaves) : "f" \in DOMAIN ws /\
              Call([op |-> "loadsizeH", h |-> g, f |-> "f", s |-> s, l |-> l, b |-> b, t |-> ws["f"].t, il |-> il, out |-> ""])
\* the process writing the file died after n of its elements
Cut == "save" \in Ops /\ "f" \in DOMAIN ws /\ \E n \in Pick(0..Len(ws["f"].d)) : Call([op |-> "cutfile", f |-> "f", n |-> n, out |-> ""])
NewS == "plane" \in Ops /\ \E g \in Pick(Free), r \in Pick(Dims), c \in Pick(Dims), t \in Pick(TypesUsed) : Call([op |-> "createS", h |-> g, r |-> r, c |-> c, t |-> t, ch |-> 1, data |-> Null, plain |-> 1, out |-> ""])
TakeBand == "plane" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Ss), b \in Pick(0..3) : ws[g].r * ws[g].c * ES(ws[g].t) >= ws[h].l * ws[h].s * ES(ws[h].t) /\ Call([op |-> "band2S", h |-> h, g |-> g, b |-> b, out |-> ""])
PutBand == "plane" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Ss), b \in Pick(0..3) : Call([op |-> "S2band", h |-> h, g |-> g, b |-> b, out |-> ""])
DoReshape == "plane" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Free), r \in Pick(1..4), c \in Pick(1..4) : Call([op |-> "reshape", h |-> h, g |-> g, r |-> r, c |-> c, out |-> ""])
DoSplice == "plane" \in Ops /\ \E h \in Pick(Hs), g \in Pick(Hs) : h # g /\ \E at \in Pick(0..(Len(ws[h].d) - Len(ws[g].d))) : Call([op |-> "splice", h |-> h, g |-> g, at |-> at, out |-> ""])
Next == Create \/ Conv \/ Convert2 \/ DoRange \/ Copy \/ CopyTo \/ CopyWave \/ Fill \/ Delete \/ Save \/ Load \/ LoadSize \/ Cut \/ NewS \/ TakeBand \/ PutBand \/ DoReshape \/ DoSplice
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= MaxDepth
View == ws

(*********************** properties ***********************)
WellFormed(m) == IF m.k = "H" THEN m.s > 0 /\ m.l > 0 /\ m.b > 0 /\ m.t \in Types /\ m.il \in Interleaves /\ m.al = 1 /\ Len(m.d) = m.s * m.l * m.b /\ Len(m.w) = m.b
                 ELSE IF m.k = "S" THEN Len(m.d) = m.r * m.c * m.ch /\ m.es = ES(m.t) ELSE TRUE
TypeOK == \A h \in DOMAIN ws : WellFormed(ws[h])
Step(op) == last'.op = op /\ last'.out = "ok"
Same(h) == h \in DOMAIN ws' /\ ws'[h] = ws[h]
Others(touched) == \A h \in DOMAIN ws \ touched : Same(h)
C01Step == Step("createH") =>
             LET o == last' m == ws'[o.h] IN
             /\ <<m.s, m.l, m.b, m.t, m.il>> = <<o.s, o.l, o.b, o.t, o.il>>
             /\ m.d = IF o.v = 1 THEN Pattern(o.t, o.s * o.l * o.b, o.k) ELSE Const(o.s * o.l * o.b, Zero(o.t))
             /\ m.w = IF o.v = 1 THEN Waves(o.b, o.k) ELSE Const(o.b, Zero(4))
             /\ Others({})
\* the logical cube, read coordinate by coordinate, never changes under conversion
C02Step == /\ Step("convH") => Cube(ws'[last'.g]) = Cube(ws[last'.h]) /\ ws'[last'.g].w = ws[last'.h].w /\ ws'[last'.g].t = ws[last'.h].t /\ ws'[last'.g].il = ConvTo(last'.fn) /\ Others({})
           /\ Step("convert2H") => Cube(ws'[last'.h]) = Cube(ws[last'.h]) /\ ws'[last'.h].w = ws[last'.h].w /\ ws'[last'.h].il = last'.il /\ Others({last'.h})
           /\ last'.op = "convH" /\ last'.out = "exit" => ws[last'.h].il \notin {ConvFrom(last'.fn), ConvTo(last'.fn)}
C03Step == Step("rangeH") =>
             LET q == last'.rg m == ws[last'.h] n == ws'[last'.g] IN
             /\ n.l = q[4] - q[1] /\ n.s = q[5] - q[2] /\ n.b = q[6] - q[3] /\ n.il = m.il /\ n.t = m.t
             /\ \A c \in DOMAIN Cube(n) : Cube(n)[c] = Cube(m)[<<c[1] + q[1], c[2] + q[2], c[3] + q[3]>>]
             /\ \A j \in 1..n.b : n.w[j] = m.w[j + q[3]]
             /\ Others({})
C04Step == /\ Step("copyH") => ws'[last'.g] = ws[last'.h] /\ Others({})
           /\ Step("copytoH") => ws'[last'.g] = ws[last'.h] /\ Others({last'.g})
           /\ Step("copywaveH") => ws'[last'.g] = [ws[last'.g] EXCEPT !.w = ws[last'.h].w] /\ Others({last'.g})
           /\ Step("fillH") => Others({last'.h})
           /\ Step("deleteH") => Others({last'.h})
\* every element is the file's, or zero where the file has none
Prefix(d, f) == \A i \in 1..Len(d) : d[i] = IF i <= Len(f.d) THEN f.d[i] ELSE Zero(f.t)
C05Step == /\ Step("saveH") => ws'["f"].d = ws[last'.h].d /\ Others({"f", "e"})
           /\ Step("loadH") /\ last'.h \in DOMAIN ws' => LET m == ws'[last'.h] IN Prefix(m.d, ws["f"]) /\ m.w = ws["e"].w /\ m.il = ws["e"].il /\ Others({})
           /\ Step("loadsizeH") => LET m == ws'[last'.h] IN Prefix(m.d, ws["f"]) /\ m.w = Const(last'.b, Zero(4)) /\ m.il = last'.il /\ Others({})
\* save then load is the identity: whatever is on disk, loading it gives a cube whose saving would leave the disk as it is
C05Inv == "e" \in DOMAIN ws /\ "f" \in DOMAIN ws =>
            LET m == Eff(ws, [op |-> "loadH", h |-> "zz", f |-> "f", e |-> "e"], NoWit).upd[1][2]
                again == Eff([h \in {"zz"} |-> m], [op |-> "saveH", h |-> "zz", f |-> "f", e |-> "e"], NoWit).upd
            IN  SubSeq(again[1][2].d, 1, Len(ws["f"].d)) = ws["f"].d /\ again[2][2] = ws["e"]
C07Step == /\ Step("S2band") => LET m == ws[last'.h] n == ws'[last'.h] IN
                \A c \in DOMAIN Cube(m) : Cube(n)[c] = IF c[3] = last'.b - 1 THEN ws[last'.g].d[c[1] * m.s + c[2] + 1] ELSE Cube(m)[c]
           /\ Step("band2S") => LET m == ws[last'.h] p == ws'[last'.g] IN \A i \in 0..(m.l - 1), j \in 0..(m.s - 1) : p.d[i * p.c + j + 1] = Cube(m)[<<i, j, last'.b - 1>>]
           /\ Step("reshape") => ws'[last'.g].d = ws[last'.h].d
           /\ Step("splice") => LET m == ws[last'.h] n == ws'[last'.h] p == ws[last'.g] IN SubSeq(n.d, last'.at + 1, last'.at + Len(p.d)) = p.d /\ SubSeq(n.d, 1, last'.at) = SubSeq(m.d, 1, last'.at) /\ Len(n.d) = Len(m.d)
C08Step == Step("deleteH") \/ Step("deleteS") => DOMAIN ws' = DOMAIN ws \ {last'.h}
P01 == [][C01Step]_vars
P02 == [][C02Step]_vars
P03 == [][C03Step]_vars
P04 == [][C04Step]_vars
P05 == [][C05Step]_vars
P07 == [][C07Step]_vars
P08 == [][C08Step]_vars
=============================================================================
