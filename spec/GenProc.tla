-------------------------------- MODULE GenProc --------------------------------
(* Pipelines of image operations drawn from the specification by TLC's simulator: images are created, transformed into
   one another, measured and deleted; every call is one that HyperCV gives a unique effect.  The printed programs are
   replayed on the real library and the recorded traces validated against HyperCV. *)
EXTENDS HyperCV, Json
CONSTANTS Steps, Kinds
VARIABLES ws, hist, done
vars == <<ws, hist, done>>
One(S) == IF S = {} THEN {} ELSE {RandomElement(S)}
Names == {"a", "b", "c", "d", "e"}
Free == Names \ DOMAIN ws
Ims == {h \in DOMAIN ws : ws[h].k = "S"}
U8(ch) == {h \in Ims : ws[h].t = 1 /\ ws[h].ch = ch}
Like(h) == {g \in Ims \ {h} : SameGeom(ws[g], ws[h]) /\ ws[g].t = ws[h].t}
Rand(n, S) == TLCEval([p \in 1..n |-> RandomElement(S)])
Do(ops, nws, out) == ws' = nws /\ hist' = hist \o [i \in 1..Len(ops) |-> IF i = Len(ops) THEN [o |-> ops[i], out |-> out] ELSE [o |-> ops[i], out |-> "ok"]] /\ done' = FALSE
Call(o) == LET e == Eff(ws, o, NoWit) IN Do(<<o>>, IF e.out = "ok" THEN ApplyUpd(ws, e.upd, e.del) ELSE ws, e.out)
NewS == \E h \in One(Free), r \in One(1..5), c \in One(1..5), ch \in One({1, 1, 3}), S \in One({0..255, {0, 1}, {7, 8, 9, 200}}) :
          LET c1 == [op |-> "createS", h |-> h, r |-> r, c |-> c, t |-> 1, ch |-> ch, data |-> Null, plain |-> 1] d == Rand(r * c * ch, S) c2 == [op |-> "fillS", h |-> h, d |-> d] IN
          Do(<<c1, c2>>, ApplyUpd(ws, << <<h, SM(r, c, 1, ch, d)>> >>, {}), "ok")
\* a destination shaped like an existing image
Twin == \E h \in One(Ims), g \in One(Free) : LET m == ws[h] c1 == [op |-> "createS", h |-> g, r |-> m.r, c |-> m.c, t |-> m.t, ch |-> m.ch, data |-> Null, plain |-> 1] IN Do(<<c1>>, ApplyUpd(ws, << <<g, SM(m.r, m.c, m.t, m.ch, Const(m.r * m.c * m.ch, Zero(m.t)))>> >>, {}), "ok")
Shape(r, c, ch, t) == \E g \in One(Free) : Do(<<[op |-> "createS", h |-> g, r |-> r, c |-> c, t |-> t, ch |-> ch, data |-> Null, plain |-> 1]>>, ApplyUpd(ws, << <<g, SM(r, c, t, ch, Const(r * c * ch, Zero(t)))>> >>, {}), "ok")
Shaped == \E h \in One(Ims) : LET m == ws[h] IN \E k \in One(1..4) :
            CASE k = 1 -> Shape(m.c, m.r, m.ch, m.t) [] k = 2 -> Shape(2 * m.r, 2 * m.c, m.ch, m.t) [] k = 3 -> m.r > 1 /\ m.c > 1 /\ Shape((m.r + 1) \div 2, (m.c + 1) \div 2, m.ch, m.t) [] OTHER -> Shape(m.r, m.c, 1, 3)
Del == \E h \in One(Ims) : Call([op |-> "deleteS", h |-> h])
CopyIm == \E h \in One(Ims), g \in One(Free) : Call([op |-> "copyS", h |-> h, g |-> g])
DoFlip == \E h \in One(Ims) : \E g \in One(Like(h)), fn \in One({"h", "v", "code"}), code \in One(-1..1) : Call([op |-> "flip", fn |-> fn, h |-> h, g |-> g, code |-> code])
DoTrans == \E h \in One(Ims) : \E g \in One({g \in Ims \ {h} : ws[g].r = ws[h].c /\ ws[g].c = ws[h].r /\ ws[g].t = ws[h].t /\ ws[g].ch = ws[h].ch}) : Call([op |-> "transS", h |-> h, g |-> g])
DoBorder == \E h \in One({h \in Ims : ws[h].r + ws[h].c < 14}), g \in One(Free), bt \in One(0..4), t \in One(0..3), b \in One(0..3), l \in One(0..3), r \in One(0..3), v \in One(0..255) :
              Call([op |-> "border", h |-> h, g |-> g, top |-> t, bottom |-> b, left |-> l, right |-> r, bt |-> bt, val |-> v])
DoThresh == \E h \in One(U8(1)) : \E g \in One(Like(h)), ty \in One(0..4), th \in One(0..255), mx \in One({255, 1, 100}) :
              Call([op |-> "thresh", fn |-> <<"gen", "binary", "trunc", "tozero", "tozero_inv", "binary_inv">>[1 + ((th + ty) % 6)], h |-> h, g |-> g, th |-> th, mx |-> mx, type |-> ty])
DoLap == \E h \in One(U8(1)) : \E g \in One(Like(h)), ks \in One({1, 2, 3}), bt \in One(1..4) : Call([op |-> "lap", h |-> h, g |-> g, ks |-> ks, bt |-> bt])
DoSobel == \E h \in One(U8(1)) : \E g \in One(Like(h)), th \in One({0, 50, 200}), bt \in One(1..4) : Call([op |-> "sobel", h |-> h, g |-> g, th |-> th, bt |-> bt])
DoRank == \E h \in One(U8(1)) : \E g \in One(Like(h)), size \in One({1, 3, 5}), op \in One({"median", "meanblur"}) : Call([op |-> op, h |-> h, g |-> g, size |-> size])
DoIntegral == \E h \in One(U8(1)) : \E g \in One({g \in Ims : ws[g].t = 3 /\ SameGeom(ws[g], ws[h])}) : Call([op |-> "integral", h |-> h, g |-> g])
DoGauss == \E h \in One(U8(1) \cup U8(3)) : \E g \in One(Like(h)), kw \in One({1, 3, 5}), kh \in One({1, 3, 5}), bt \in One(1..4) : Call([op |-> "gauss", h |-> h, g |-> g, kw |-> kw, kh |-> kh, bt |-> bt, s1 |-> <<0, 0>>, s2 |-> <<0, 0>>])
DoPyr == \E h \in One(U8(1) \cup U8(3)) : \/ \E g \in One({g \in Ims : ws[g].t = 1 /\ ws[g].ch = ws[h].ch /\ ws[g].r = 2 * ws[h].r /\ ws[g].c = 2 * ws[h].c}) : Call([op |-> "pyrup", h |-> h, g |-> g])
                                \/ \E g \in One({g \in Ims : ws[g].t = 1 /\ ws[g].ch = ws[h].ch /\ 2 * ws[g].r - ws[h].r \in 0..1 /\ 2 * ws[g].c - ws[h].c \in 0..1}) : Call([op |-> "pyrdown", h |-> h, g |-> g])
DoRgb == \E h \in One(U8(1)), g \in One(Free) : Call([op |-> "gray2rgb", h |-> h, g |-> g])
DoGrey == \E h \in One(U8(3)), g \in One(Free), m \in One(0..2) : Call([op |-> "rgb2gray", h |-> h, g |-> g, m |-> m])
DoSwap == \E h \in One(U8(3)) : \E g \in One(Like(h)) : Call([op |-> "bgr2rgb", h |-> h, g |-> g])
Els == [c |-> [wd |-> 3, ht |-> 3, d |-> <<0, 1, 0, 1, 1, 1, 0, 1, 0>>], s |-> [wd |-> 3, ht |-> 3, d |-> Const(9, 1)], l |-> [wd |-> 3, ht |-> 1, d |-> <<1, 1, 1>>]]
DoMorph == \E h \in One(U8(1)), x \in One({"c", "s", "l"}), op \in One({"erode", "dilate", "open", "close"}) : \E g \in One(Like(h)) :
             (op \in {"open", "close"} \/ ~TooSmall(ws[h], Els[x])) /\
             LET e == Els[x] c1 == [op |-> "createD", h |-> "x", wd |-> e.wd, ht |-> e.ht, dd |-> e.d] o == [op |-> op, h |-> h, g |-> g, d |-> "x", it |-> 1 + (ws[h].r % 2)]
                 w2 == [k \in DOMAIN ws \cup {"x"} |-> IF k = "x" THEN [k |-> "D", wd |-> e.wd, ht |-> e.ht, d |-> e.d] ELSE ws[k]] f == Eff(w2, o, NoWit) f2 == ApplyUpd(w2, f.upd, f.del) IN
             Do(<<c1, o, [op |-> "deleteD", h |-> "x"]>>, [k \in DOMAIN f2 \ {"x"} |-> f2[k]], "ok")
K(k, A) == k \in Kinds /\ A
Act == NewS \/ Twin \/ Shaped \/ CopyIm \/ Del \/ K("flip", DoFlip) \/ K("trans", DoTrans) \/ K("border", DoBorder) \/ K("thresh", DoThresh) \/ K("lap", DoLap) \/ K("sobel", DoSobel) \/ K("rank", DoRank)
       \/ K("integral", DoIntegral) \/ K("gauss", DoGauss) \/ K("pyr", DoPyr) \/ K("colour", DoRgb) \/ K("colour", DoGrey) \/ K("colour", DoSwap) \/ K("morph", DoMorph)
Init == ws = EmptyWs /\ hist = <<>> /\ done = FALSE
Ended == Len(hist) > 0 /\ hist[Len(hist)].out = "exit"
Small == \A h \in DOMAIN ws' : ws'[h].k = "S" => ws'[h].r * ws'[h].c <= 150
GenStep == ~Ended /\ Len(hist) < Steps /\ Act /\ Small
GenDone == ~done /\ (Ended \/ Len(hist) >= Steps) /\ done' = TRUE /\ UNCHANGED <<ws, hist>> /\ PrintT("PROG " \o ToJson([i \in 1..Len(hist) |-> hist[i].o]))
GenSpec == Init /\ [][GenStep \/ GenDone]_vars
=============================================================================
