-------------------------------- MODULE Base --------------------------------
(* Value domains, layout arithmetic and the vocabulary of effects shared by every part of the
   HYPERCV specification.

   Elements.  Every pixel value is represented injectively:
     types 1,2,3,12 (u8,i16,i32,u16)  an integer
     type 4  (float)                  <<m,e>> = m * 2^e with m odd (0 is <<0,0>>, -0 <<0,-999>>, +-inf <<+-1,999>>, nan <<0,999>>)
     type 5  (double)                 <<hi,lo,e>> = (hi*2^27+lo) * 2^e
     type 13 (u32)                    <<hi16,lo16>>
     types 14,15 (i64,u64)            four 16-bit limbs
   so layout operations can treat elements as opaque and arithmetic ones can interpret them. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Types == {1, 2, 3, 4, 5, 12, 13, 14, 15}
ES(t) == CASE t = 1 -> 1 [] t \in {2, 12} -> 2 [] t \in {3, 4, 13} -> 4 [] t \in {5, 14, 15} -> 8 [] OTHER -> -1
Zero(t) == CASE t \in {1, 2, 3, 12} -> 0 [] t = 4 -> <<0, 0>> [] t = 5 -> <<0, 0, 0>>
             [] t = 13 -> <<0, 0>> [] OTHER -> <<0, 0, 0, 0>>
Interleaves == {"bsq", "bil", "bip"}

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SumSeq(q) == FoldLeft(LAMBDA a, b : a + b, 0, q)
MaxSeq(q) == FoldLeft(LAMBDA a, b : IF a >= b THEN a ELSE b, q[1], q)
MinSeq(q) == FoldLeft(LAMBDA a, b : IF a <= b THEN a ELSE b, q[1], q)
\* sum of f(i) for i in lo..hi
RECURSIVE SumF(_, _, _)
SumF(f(_), lo, hi) == IF lo > hi THEN 0 ELSE f(lo) + SumF(f, lo + 1, hi)
\* floor division / modulus for any sign of the dividend (TLA+ \div already floors)
Const(n, v) == [i \in 1..n |-> v]

(***************************** layout *****************************)
\* offset of line i, sample j, band k (all 0-based) in a cube of s samples, l lines, b bands
Pos(il, s, l, b, i, j, k) ==
  CASE il = "bsq" -> (k * l + i) * s + j
    [] il = "bil" -> (i * b + k) * s + j
    [] il = "bip" -> (i * s + j) * b + k
\* inverse: <<line, sample, band>> of offset p
Coord(il, s, l, b, p) ==
  CASE il = "bsq" -> << (p \div s) % l, p % s, p \div (s * l) >>
    [] il = "bil" -> << p \div (s * b), p % s, (p \div s) % b >>
    [] il = "bip" -> << p \div (s * b), (p \div b) % s, p % b >>
Relayout(d, from, to, s, l, b) ==
  [p \in 1..(s * l * b) |-> LET c == Coord(to, s, l, b, p - 1) IN d[Pos(from, s, l, b, c[1], c[2], c[3]) + 1]]
\* the logical cube of a hyper mat: what a user means by "the data", whatever the layout
Cube(h) == [c \in (0..(h.l - 1)) \X (0..(h.s - 1)) \X (0..(h.b - 1)) |-> h.d[Pos(h.il, h.s, h.l, h.b, c[1], c[2], c[3]) + 1]]

(***************************** objects *****************************)
HM(s, l, b, t, il, w, d) == [k |-> "H", s |-> s, l |-> l, b |-> b, t |-> t, il |-> il, al |-> 1, w |-> w, d |-> d]
SM(r, c, t, ch, d) == [k |-> "S", r |-> r, c |-> c, t |-> t, ch |-> ch, es |-> ES(t), ext |-> 0, al |-> 1, d |-> d]
Null == "null"
Obj(ws, h) == ws[h]

(***************************** effects *****************************)
(* A call maps the workspace to: an outcome ("ok", or "exit" when the library refuses the call), the result
   fields, the objects it creates or changes, and the handles it destroys.  Whatever is not mentioned is unchanged. *)
NoRet == [z |-> 0]
Ok(ret, upd, del) == [out |-> "ok", ret |-> ret, upd |-> upd, del |-> del]
New(h, o) == Ok([null |-> 0], << <<h, o>> >>, {})
Put(h, o) == Ok(NoRet, << <<h, o>> >>, {})
Skip == Ok(NoRet, <<>>, {})
Refuse == [out |-> "exit", ret |-> NoRet, upd |-> <<>>, del |-> {}]
RetNull == Ok([null |-> 1], <<>>, {})
UpdFcn(upd) == [h \in {upd[i][1] : i \in 1..Len(upd)} |-> (CHOOSE i \in 1..Len(upd) : upd[i][1] = h /\ \A j \in (i+1)..Len(upd) : upd[j][1] # h)]
ApplyUpd(ws, upd, del) ==
  LET ix == UpdFcn(upd)
  IN  [h \in (DOMAIN ws \cup DOMAIN ix) \ del |-> IF h \in DOMAIN ix THEN upd[ix[h]][2] ELSE ws[h]]
EmptyWs == [h \in {} |-> 0]
=============================================================================
