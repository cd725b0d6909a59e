-------------------------------- MODULE Cxx --------------------------------
(* The C++ cube class: an object is empty or owns its elements and wavelengths.  A call on it follows the same cube
   semantics as the C interface (Core): the same layouts, boxes and files. *)
EXTENDS Alg

XM(s, l, b, t, f, w, d) == [k |-> "X", e |-> 0, s |-> s, l |-> l, b |-> b, t |-> t, ds |-> s * l * b * ES(t), f |-> f, il |-> f, es |-> ES(t), w |-> w, d |-> d]
XEmpty == [k |-> "X", e |-> 1, s |-> 0, l |-> 0, b |-> 0, t |-> 0, ds |-> 0]
XBad(s, l, b, t, f) == BadDims(s, l, b) \/ t \notin Types \/ f \notin Interleaves
\* the C view of a cube object and back
AsH(m) == HM(m.s, m.l, m.b, m.t, m.f, m.w, m.d)
AsX(m) == XM(m.s, m.l, m.b, m.t, m.il, m.w, m.d)
\* storage handed over becomes the object's
Handed(ws, o, d, w) == (IF d /\ o.data # Null THEN {o.data} ELSE {}) \cup (IF w /\ o.w # Null THEN {o.w} ELSE {})
MakeX(ws, o, f, d, w) ==
  IF XBad(o.s, o.l, o.b, o.t, f) THEN Refuse
  ELSE LET n == o.s * o.l * o.b IN
       Ok(NoRet, << <<o.h, XM(o.s, o.l, o.b, o.t, f,
                       IF w /\ o.w # Null THEN SubSeq(ws[o.w].d, 1, o.b) ELSE Const(o.b, <<0, 0>>),
                       IF d /\ o.data # Null THEN SubSeq(ws[o.data].d, 1, n) ELSE Const(n, Zero(o.t)))>> >>, Handed(ws, o, d, w))
NewX(ws, o) == IF o.v = 0 THEN Put(o.h, XEmpty) ELSE MakeX(ws, o, o.fm, o.v > 1, o.v > 2)
\* create on an existing object gives up what it held; without arguments it keeps the shape and clears the content
CreateX(ws, o) ==
  IF o.v = 0 THEN LET m == ws[o.h] IN IF m.e = 1 THEN Refuse ELSE Put(o.h, XM(m.s, m.l, m.b, m.t, m.f, Const(m.b, <<0, 0>>), Const(m.s * m.l * m.b, Zero(m.t))))
  ELSE MakeX(ws, o, IF o.v = 1 THEN "bsq" ELSE o.fm, o.v > 2, o.v > 3)
CopyX(ws, o) == Put(o.g, ws[o.h])
Over(d, q, n) == [i \in 1..Len(d) |-> IF i <= n THEN q[i] ELSE d[i]]
SetDataX(ws, o) ==
  IF o.data = Null THEN Skip ELSE LET m == ws[o.h] IN Put(o.h, [m EXCEPT !.d = Over(m.d, ws[o.data].d, IF o.n = 0 THEN Len(m.d) ELSE o.n)])
SetWaveX(ws, o) ==
  IF o.w = Null THEN Skip ELSE LET m == ws[o.h] IN Put(o.h, [m EXCEPT !.w = Over(m.w, ws[o.w].d, IF o.n = 0 THEN m.b ELSE o.n)])
EmptyX(ws, o) == Ok([v |-> ws[o.h].e], <<>>, {})
\* the effect of the C call on the C view
ViaC(ws, o, call(_, _)) ==
  LET e == call([h \in {o.h} |-> AsH(ws[o.h])], o) IN
  IF e.out # "ok" THEN e ELSE Ok(NoRet, [i \in 1..Len(e.upd) |-> <<e.upd[i][1], AsX(e.upd[i][2])>>], {})
ConvX(ws, o) == IF ws[o.h].e = 1 THEN Refuse ELSE ViaC(ws, o, ConvH)
ToX(ws, o) == IF o.fm \notin Interleaves THEN Refuse ELSE ViaC(ws, [o EXCEPT !.op = "convert2H"] @@ [il |-> o.fm], Convert2H)
RangeX(ws, o) == IF ws[o.h].e = 1 THEN Refuse ELSE ViaC(ws, o, RangeH)
SaveX(ws, o) ==
  IF ws[o.h].e = 1 \/ o.null = 1 THEN Skip
  ELSE IF "nodir" \in DOMAIN o THEN Skip
  ELSE LET m == ws[o.h] IN
       IF "nohdr" \in DOMAIN o THEN Put(o.f, DataFile(m.t, m.d))
       ELSE Ok(NoRet, << <<o.f, DataFile(m.t, m.d)>>, <<o.e, HdrFile(m.s, m.l, m.b, m.t, m.f, 1, m.w)>> >>, {})
\* what reading gives: an image that is not there gives an empty object, a header that is not there is refused
ReadX(ws, o) ==
  IF o.f \notin DOMAIN ws THEN Put(o.h, XEmpty)
  ELSE IF o.e \notin DOMAIN ws THEN Refuse
  ELSE LET f == ws[o.f] e == ws[o.e] IN
       Put(o.h, XM(e.s, e.l, e.b, e.t, e.il, IF e.hasw = 1 THEN e.w ELSE Const(e.b, <<0, 0>>), Padded(f.t, f.d, e.s * e.l * e.b)))
ReadSizeX(ws, o) ==
  IF XBad(o.s, o.l, o.b, o.t, o.fm) THEN Refuse
  ELSE IF o.f \notin DOMAIN ws THEN Put(o.h, XEmpty)
  ELSE Put(o.h, XM(o.s, o.l, o.b, o.t, o.fm, Const(o.b, <<0, 0>>), Padded(o.t, ws[o.f].d, o.s * o.l * o.b)))
ReadTextX(ws, o) ==
  IF o.img = 0 THEN Put(o.h, XEmpty)
  ELSE IF o.hdr = 0 THEN Refuse
  ELSE LET e == LoadText(ws, IF HasField(o.lines, "interleave") THEN o ELSE [o EXCEPT !.lines = Append(o.lines, [f |-> "interleave", il |-> "bsq"])]) IN IF e.out # "ok" THEN e ELSE Put(o.h, AsX(e.upd[1][2]))

CxxOps == {"newX", "createX", "copyX", "setdataX", "setwaveX", "emptyX", "convX", "toX", "rangeX", "releaseX", "delX", "saveX", "openX", "readX", "opensizeX", "readsizeX", "readtextX"}
CxxEff(ws, o) ==
  CASE o.op = "newX" -> NewX(ws, o)
    [] o.op = "createX" -> CreateX(ws, o)
    [] o.op = "copyX" -> CopyX(ws, o)
    [] o.op = "setdataX" -> SetDataX(ws, o)
    [] o.op = "setwaveX" -> SetWaveX(ws, o)
    [] o.op = "emptyX" -> EmptyX(ws, o)
    [] o.op = "convX" -> ConvX(ws, o)
    [] o.op = "toX" -> ToX(ws, o)
    [] o.op = "rangeX" -> RangeX(ws, o)
    [] o.op = "releaseX" -> Put(o.h, XEmpty)
    [] o.op = "delX" -> DeleteObj(ws, o)
    [] o.op = "saveX" -> SaveX(ws, o)
    [] o.op \in {"openX", "readX"} -> ReadX(ws, o)
    [] o.op \in {"opensizeX", "readsizeX"} -> ReadSizeX(ws, o)
    [] o.op = "readtextX" -> ReadTextX(ws, o)
=============================================================================
