-------------------------------- MODULE Core --------------------------------
(* Hyper mats, simple mats, structuring elements, ENVI files and BMP files. One operator per public call. *)
EXTENDS Base

(*************************** hyper mats ***************************)
BadDims(s, l, b) == s <= 0 \/ l <= 0 \/ b <= 0
CreateH(ws, o) ==
  IF BadDims(o.s, o.l, o.b) \/ o.t \notin Types THEN Refuse
  ELSE LET n == o.s * o.l * o.b
           d == IF o.data = Null THEN Const(n, Zero(o.t)) ELSE SubSeq(ws[o.data].d, 1, n)
           w == IF o.w = Null THEN Const(o.b, <<0, 0>>) ELSE SubSeq(ws[o.w].d, 1, o.b)
       IN  New(o.h, HM(o.s, o.l, o.b, o.t, o.il, w, d))
DeleteObj(ws, o) == IF o.h = Null THEN Skip ELSE Ok(NoRet, <<>>, {o.h})
CopyH(ws, o) == IF o.h = Null THEN RetNull ELSE New(o.g, ws[o.h])
SameShape(a, b) == a.s = b.s /\ a.l = b.l /\ a.b = b.b
CopyToH(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] IN
       IF SameShape(a, b) /\ a.t = b.t THEN Put(o.g, [b EXCEPT !.d = a.d, !.w = a.w, !.il = a.il]) ELSE Refuse
CopyWaveH(ws, o) ==
  IF o.h = Null \/ o.g = Null THEN Refuse
  ELSE LET a == ws[o.h] b == ws[o.g] IN IF a.b = b.b THEN Put(o.g, [b EXCEPT !.w = a.w]) ELSE Refuse
\* what is printed about a cube: its geometry, element type, interleave and every wavelength
Letters == [bsq |-> <<98, 115, 113>>, bil |-> <<98, 105, 108>>, bip |-> <<98, 105, 112>>]
ShowH(ws, o) ==
  IF o.h = Null THEN Ok([none |-> 1], <<>>, {})
  ELSE LET m == ws[o.h] IN Ok([v |-> <<m.s, m.l, m.b, m.t>>, il |-> IF m.il \in DOMAIN Letters THEN Letters[m.il] ELSE <<>>, w |-> m.w], <<>>, {})
EmptyH(ws, o) == Ok([v |-> IF o.h = Null THEN 1 ELSE 0], <<>>, {})
ConvFrom(fn) == CASE fn \in {"bil2bsq", "bil2bip"} -> "bil" [] fn \in {"bsq2bil", "bsq2bip"} -> "bsq" [] OTHER -> "bip"
ConvTo(fn) == CASE fn \in {"bil2bsq", "bip2bsq"} -> "bsq" [] fn \in {"bsq2bil", "bip2bil"} -> "bil" [] OTHER -> "bip"
ToLayout(m, il) == [m EXCEPT !.il = il, !.d = Relayout(m.d, m.il, il, m.s, m.l, m.b)]
\* x2y(m): a fresh mat in layout y; a mat already in layout y is copied; any other layout is refused
ConvH(ws, o) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.il = ConvTo(o.fn) THEN New(o.g, m)
       ELSE IF m.il = ConvFrom(o.fn) THEN New(o.g, ToLayout(m, ConvTo(o.fn)))
       ELSE Refuse
Convert2H(ws, o) ==
  IF o.h = Null THEN Refuse
  ELSE LET m == ws[o.h] IN IF m.il = o.il THEN Skip ELSE Put(o.h, ToLayout(m, o.il))
\* half-open box [r0,r1) x [c0,c1) x [b0,b1) in (line, sample, band) order
RangeH(ws, o) ==
  LET m == ws[o.h]  g == o.rg  nl == g[4] - g[1]  ns == g[5] - g[2]  nb == g[6] - g[3] IN
  IF nl <= 0 \/ ns <= 0 \/ nb <= 0 THEN Refuse
  ELSE IF g[1] < 0 \/ g[2] < 0 \/ g[3] < 0 \/ g[4] > m.l \/ g[5] > m.s \/ g[6] > m.b THEN Refuse
  ELSE New(o.g, HM(ns, nl, nb, m.t, m.il, SubSeq(m.w, g[3] + 1, g[6]),
             [p \in 1..(ns * nl * nb) |->
                LET c == Coord(m.il, ns, nl, nb, p - 1)
                IN  m.d[Pos(m.il, m.s, m.l, m.b, c[1] + g[1], c[2] + g[2], c[3] + g[3]) + 1]]))
Reshape(ws, o) ==
  LET m == ws[o.h] IN
  IF o.r <= 0 \/ o.c <= 0 \/ o.r * o.c # m.s * m.l * m.b THEN Refuse ELSE New(o.g, SM(o.r, o.c, m.t, 1, m.d))
\* band b (1-based) of a bsq cube becomes the plane g
Band2S(ws, o) ==
  LET m == ws[o.h] p == ws[o.g] n == m.s * m.l IN
  IF m.il # "bsq" \/ o.b < 1 \/ o.b > m.b \/ p.r * p.c * p.ch * p.es < n * ES(m.t) THEN Refuse
  ELSE Put(o.g, [p EXCEPT !.r = m.l, !.c = m.s, !.ch = 1, !.t = m.t, !.es = ES(m.t), !.d = SubSeq(m.d, (o.b - 1) * n + 1, o.b * n)])
S2Band(ws, o) ==
  LET m == ws[o.h] p == ws[o.g] n == m.s * m.l IN
  IF p.t # m.t \/ p.r # m.l \/ p.c # m.s \/ o.b < 1 \/ o.b > m.b \/ m.il # "bsq" THEN Refuse
  ELSE Put(o.h, [m EXCEPT !.d = [i \in 1..Len(m.d) |-> IF i > (o.b - 1) * n /\ i <= o.b * n THEN p.d[i - (o.b - 1) * n] ELSE m.d[i]]])
\* part's elements overwrite those of mat from element offset at
Splice(ws, o) ==
  LET m == ws[o.h] p == ws[o.g] n == Len(p.d) IN
  IF m.t # p.t \/ o.at < 0 \/ o.at > Len(m.d) - n THEN Refuse
  ELSE Put(o.h, [m EXCEPT !.d = [i \in 1..Len(m.d) |-> IF i > o.at /\ i <= o.at + n THEN p.d[i - o.at] ELSE m.d[i]]])

(*************************** ENVI files ***************************)
DataFile(t, d) == [k |-> "F", t |-> t, rem |-> 0, d |-> d]
HdrFile(s, l, b, t, il, hasw, w) == [k |-> "E", s |-> s, l |-> l, b |-> b, t |-> t, il |-> il, hasw |-> hasw, w |-> w]
\* the file named lies in a directory that does not exist: nothing can be written there, and the call says so
NoDir(o) == "nodir" \in DOMAIN o
SaveH(ws, o) ==
  IF o.h = Null \/ NoDir(o) THEN Refuse
  ELSE LET m == ws[o.h] IN Ok(NoRet, << <<o.f, DataFile(m.t, m.d)>>, <<o.e, HdrFile(m.s, m.l, m.b, m.t, m.il, 1, m.w)>> >>, {})
WriteHdr(ws, o) ==
  IF BadDims(o.s, o.l, o.b) \/ NoDir(o) THEN Refuse
  ELSE Put(o.e, HdrFile(o.s, o.l, o.b, o.t, o.il, IF o.w = Null THEN 0 ELSE 1, IF o.w = Null THEN <<>> ELSE SubSeq(ws[o.w].d, 1, o.b)))
\* a file shorter than what it should hold (a save that was cut off, say) gives zero for what is not there
ItemOr(q, i, z) == IF i <= Len(q) THEN q[i] ELSE z
Padded(t, d, n) == IF n <= Len(d) THEN SubSeq(d, 1, n) ELSE d \o Const(n - Len(d), Zero(t))
LoadH(ws, o) ==
  IF o.f \notin DOMAIN ws \/ o.e \notin DOMAIN ws THEN RetNull
  ELSE LET f == ws[o.f] e == ws[o.e] IN
       New(o.h, HM(e.s, e.l, e.b, e.t, e.il, IF e.hasw = 1 THEN e.w ELSE Const(e.b, <<0, 0>>), Padded(f.t, f.d, e.s * e.l * e.b)))
LoadSizeH(ws, o) ==
  IF BadDims(o.s, o.l, o.b) \/ o.t \notin Types THEN Refuse
  ELSE IF o.f \notin DOMAIN ws THEN RetNull
  ELSE New(o.h, HM(o.s, o.l, o.b, o.t, o.il, Const(o.b, <<0, 0>>), Padded(o.t, ws[o.f].d, o.s * o.l * o.b)))
\* header text as a sequence of fields [f |-> name, v |-> number, il |-> layout, w |-> wavelengths]; unknown fields are ignored
Fields(ls, name) == SelectSeq(ls, LAMBDA x : x.f = name)
HasField(ls, name) == Len(Fields(ls, name)) > 0
Field(ls, name) == Fields(ls, name)[1]
LoadText(ws, o) ==
  IF o.img = 0 \/ o.hdr = 0 THEN RetNull
  ELSE IF \E x \in {"samples", "lines", "bands", "data type", "interleave"} : ~HasField(o.lines, x) THEN Refuse
  ELSE LET s == Field(o.lines, "samples").v  l == Field(o.lines, "lines").v  b == Field(o.lines, "bands").v
           t == Field(o.lines, "data type").v  il == Field(o.lines, "interleave").il
       IN  IF BadDims(s, l, b) \/ t \notin Types THEN Refuse
           ELSE LET w == IF HasField(o.lines, "wavelength") THEN [j \in 1..b |-> ItemOr(Field(o.lines, "wavelength").w, j, <<0, 0>>)] ELSE Const(b, <<0, 0>>) IN
                New(o.h, HM(s, l, b, t, il, w, Padded(t, o.d, s * l * b)))
PutFile(ws, o) == Put(o.f, DataFile(o.t, o.d))
\* environment: the file keeps only its first n elements
CutFile(ws, o) == Put(o.f, [ws[o.f] EXCEPT !.d = SubSeq(ws[o.f].d, 1, o.n)])

(*************************** simple mats ***************************)
CreateS(ws, o) ==
  IF o.r <= 0 \/ o.c <= 0 \/ o.ch <= 0 \/ o.t \notin Types THEN Refuse
  ELSE IF o.data = Null THEN New(o.h, SM(o.r, o.c, o.t, o.ch, Const(o.r * o.c * o.ch, Zero(o.t))))
  ELSE Ok([null |-> 0], << <<o.h, [SM(o.r, o.c, o.t, o.ch, SubSeq(ws[o.data].d, 1, o.r * o.c * o.ch)) EXCEPT !.ext = 1]>> >>, {o.data})
CopyS(ws, o) == New(o.g, [ws[o.h] EXCEPT !.ext = 0])
ReadS(ws, o) ==
  IF o.f \notin DOMAIN ws \/ o.r <= 0 \/ o.c <= 0 \/ o.ch <= 0 \/ o.t \notin Types THEN Refuse
  ELSE New(o.h, [SM(o.r, o.c, o.t, o.ch, Padded(o.t, ws[o.f].d, o.r * o.c * o.ch)) EXCEPT !.ext = 1])
CreateD(ws, o) ==
  IF o.wd < 1 \/ o.ht < 1 THEN Refuse
  ELSE IF o.data = Null THEN New(o.h, [k |-> "D", wd |-> o.wd, ht |-> o.ht, d |-> Const(o.wd * o.ht, 1)])
  ELSE New(o.h, [k |-> "D", wd |-> o.wd, ht |-> o.ht, d |-> SubSeq(ws[o.data].d, 1, o.wd * o.ht)])

(*************************** BMP ***************************)
LE(v, n) == [i \in 1..n |-> (v \div (256 ^ (i - 1))) % 256]
FromLE(q, at, n) == SumF(LAMBDA i : q[at + i] * (256 ^ i), 0, n - 1)
Stride(w) == ((w * 3 + 3) \div 4) * 4
BmpHeader(w, h) ==
  <<66, 77>> \o LE(54 + Stride(w) * h, 4) \o <<0, 0, 0, 0>> \o LE(54, 4)
  \o LE(40, 4) \o LE(w, 4) \o LE(h, 4) \o LE(1, 2) \o LE(24, 2) \o LE(0, 4) \o LE(Stride(w) * h, 4) \o LE(100, 4) \o LE(100, 4) \o LE(0, 4) \o LE(0, 4)
\* pixel rows bottom-up, blue-green-red, padded to a multiple of four bytes
BmpBody(m) ==
  LET st == Stride(m.c) IN
  [p \in 1..(st * m.r) |->
     LET q == (p - 1) \div st  x == (p - 1) % st  row == m.r - 1 - q  col == x \div 3  ch == 2 - (x % 3)
     IN  IF x >= 3 * m.c THEN 0 ELSE IF m.ch = 1 THEN m.d[row * m.c + col + 1] ELSE m.d[(row * m.c + col) * 3 + ch + 1]]
WriteBmp(ws, o) ==
  IF o.h = Null \/ NoDir(o) THEN Refuse
  ELSE LET m == ws[o.h] IN
       IF m.t # 1 \/ m.ch \notin {1, 3} THEN Refuse ELSE Put(o.f, DataFile(1, BmpHeader(m.c, m.r) \o BmpBody(m)))
\* 24-bit files, and 8-bit files with a palette of 256 entries (blue, green, red, unused)
ReadBmp(ws, o) ==
  IF o.f \notin DOMAIN ws THEN Refuse
  ELSE LET q == TLCEval(Padded(1, ws[o.f].d, Max2(54, Len(ws[o.f].d))))  w == FromLE(q, 19, 4)  h == FromLE(q, 23, 4)  bc == FromLE(q, 29, 2)  st == IF bc = 8 THEN ((w + 3) \div 4) * 4 ELSE Stride(w) IN
       IF w < 1 \/ h < 1 \/ bc \notin {8, 24} THEN Refuse
       ELSE New(o.h, SM(h, w, 1, 3, [p \in 1..(w * h * 3) |->
            LET row == (p - 1) \div (3 * w)  x == (p - 1) % (3 * w)  col == x \div 3  ch == 2 - (x % 3)  at == (h - 1 - row) * st
            IN  IF bc = 24 THEN ItemOr(q, 54 + at + (col * 3) + ch + 1, 0) ELSE ItemOr(q, 54 + 4 * ItemOr(q, 54 + 1024 + at + col + 1, 0) + ch + 1, 0)]))

CoreOps == {"buf", "freebuf", "fillS", "fillH", "end", "createH", "deleteH", "copyH", "copytoH", "copywaveH", "emptyH", "showinfoH", "convH", "convert2H",
            "rangeH", "reshape", "band2S", "S2band", "splice", "saveH", "writehdr", "loadH", "loadsizeH", "loadtext", "putfile", "cutfile",
            "createS", "deleteS", "copyS", "readS", "createD", "deleteD", "writebmp", "readbmp"}
CoreEff(ws, o) ==
  CASE o.op = "buf" -> Put(o.h, [k |-> "B", t |-> o.t, d |-> o.d])
    [] o.op = "freebuf" -> Ok(NoRet, <<>>, {o.h})
    [] o.op \in {"fillS", "fillH"} -> Put(o.h, [ws[o.h] EXCEPT !.d = o.d])
    \* quiescence: after everything is deleted the library holds no block and no file open
    [] o.op = "end" -> Ok(IF o.chk = 1 THEN [live |-> 0, fds |-> 0] ELSE [f \in {} |-> 0], <<>>, DOMAIN ws)
    [] o.op = "createH" -> CreateH(ws, o)
    [] o.op \in {"deleteH", "deleteS", "deleteD"} -> DeleteObj(ws, o)
    [] o.op = "copyH" -> CopyH(ws, o)
    [] o.op = "copytoH" -> CopyToH(ws, o)
    [] o.op = "copywaveH" -> CopyWaveH(ws, o)
    [] o.op = "emptyH" -> EmptyH(ws, o)
    [] o.op = "showinfoH" -> ShowH(ws, o)
    [] o.op = "convH" -> ConvH(ws, o)
    [] o.op = "convert2H" -> Convert2H(ws, o)
    [] o.op = "rangeH" -> RangeH(ws, o)
    [] o.op = "reshape" -> Reshape(ws, o)
    [] o.op = "band2S" -> Band2S(ws, o)
    [] o.op = "S2band" -> S2Band(ws, o)
    [] o.op = "splice" -> Splice(ws, o)
    [] o.op = "saveH" -> SaveH(ws, o)
    [] o.op = "writehdr" -> WriteHdr(ws, o)
    [] o.op = "loadH" -> LoadH(ws, o)
    [] o.op = "loadsizeH" -> LoadSizeH(ws, o)
    [] o.op = "loadtext" -> LoadText(ws, o)
    [] o.op = "putfile" -> PutFile(ws, o)
    [] o.op = "cutfile" -> CutFile(ws, o)
    [] o.op = "createS" -> CreateS(ws, o)
    [] o.op = "copyS" -> CopyS(ws, o)
    [] o.op = "readS" -> ReadS(ws, o)
    [] o.op = "createD" -> CreateD(ws, o)
    [] o.op = "writebmp" -> WriteBmp(ws, o)
    [] o.op = "readbmp" -> ReadBmp(ws, o)
=============================================================================
