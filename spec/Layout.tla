------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Layout of structures and unions (System V ABI, with GCC's packed and       *)
(* aligned attributes) and the effect of member accesses on the bits of the   *)
(* object.  First every type of the case is laid out, one member per step;    *)
(* then a history of stores and loads runs on a bit image of the object.      *)
(*   nodes: types, components before their users.                             *)
(*   img: the bits of the object, 2 = unspecified.                            *)
(***************************************************************************)
EXTENDS Limbs, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, nd, mi, bits, oal, lay, ph, img, k, res
vars == <<cid, nd, mi, bits, oal, lay, ph, img, k, res>>
C == Cases[cid]
T(x) == C.nodes[x]
Max(a, b) == IF a > b THEN a ELSE b
Up(a, n) == ((a + n - 1) \div n) * n
\* lay[x] = [sz (bytes), al (bytes), off (bits of each member)]
Sz(x) == lay[x].sz
Al(x) == lay[x].al

(* layout *)
Place(x, m, b) ==    \* [pos, end, al]: first bit, first bit after, alignment (bits) it asks for
  LET s == Sz(m.t) * 8
      a == Al(m.t) * 8
      ma == m.al * 8
      pk == T(x).pk
      b0 == IF T(x).k = "union" THEN 0 ELSE b IN
  CASE m.w = 0 -> LET p == Up(IF ma > 0 THEN Up(b0, ma) ELSE b0, a) IN [pos |-> p, end |-> IF T(x).k = "union" THEN b ELSE p, al |-> 8]
    [] m.w > 0 -> LET p0 == IF ma > 0 THEN Up(b0, ma) ELSE b0
                      p == IF ~pk /\ (p0 % a) + m.w > s THEN Up(p0, a) ELSE p0 IN
                  [pos |-> p, end |-> Max(b, p + m.w), al |-> IF m.nm = "" THEN 8 ELSE Max(ma, IF pk THEN 8 ELSE a)]
    [] OTHER -> LET fa == IF pk THEN Max(8, ma) ELSE Max(a, ma)
                    p == Up(b0, fa) IN
                [pos |-> p, end |-> Max(b, p + s), al |-> fa]
Finish == mi > Len(T(nd).m)
LayStep ==
  /\ ph = "lay" /\ nd <= Len(C.nodes)
  /\ LET n == T(nd) IN
     CASE n.k = "leaf" -> lay' = Append(lay, [sz |-> n.sz, al |-> n.al, off |-> <<>>]) /\ nd' = nd + 1 /\ UNCHANGED <<mi, bits, oal>>
       [] n.k = "arr" -> lay' = Append(lay, [sz |-> n.n * Sz(n.e), al |-> Al(n.e), off |-> <<>>]) /\ nd' = nd + 1 /\ UNCHANGED <<mi, bits, oal>>
       [] OTHER ->
          IF ~Finish
          THEN LET p == Place(nd, n.m[mi], bits.b) IN
               bits' = [b |-> p.end, off |-> Append(bits.off, p.pos)] /\ oal' = Max(oal, p.al) /\ mi' = mi + 1 /\ UNCHANGED <<lay, nd>>
          ELSE LET a == Max(oal, n.al * 8) IN
               lay' = Append(lay, [sz |-> Up(bits.b, a) \div 8, al |-> a \div 8, off |-> bits.off]) /\ nd' = nd + 1 /\ mi' = 1 /\ bits' = [b |-> 0, off |-> <<>>] /\ oal' = 8
  /\ UNCHANGED <<cid, ph, img, k, res>>
Root == Len(C.nodes)
Byte2Bits(b) == [i \in 1..8 |-> (b \div (2 ^ (i - 1))) % 2]
FromBytes(s) == TLCEval([i \in 1..(8 * Len(s)) |-> Byte2Bits(s[((i - 1) \div 8) + 1])[((i - 1) % 8) + 1]])
LayEnd == /\ ph = "lay" /\ nd > Len(C.nodes) /\ ph' = "run"
          /\ img' = FromBytes(SubSeq(C.fill, 1, Sz(Root)))
          /\ UNCHANGED <<cid, nd, mi, bits, oal, lay, k, res>>

(* a path: where it lies *)
RECURSIVE At(_, _, _)
\* [x: type, o: first bit, w: width or -1]
At(x, p, o) == IF p = <<>> THEN [x |-> x, o |-> o, w |-> -1]
               ELSE IF T(x).k = "arr" THEN At(T(x).e, Tail(p), o + Head(p) * Sz(T(x).e) * 8)
               ELSE LET m == T(x).m[Head(p) + 1] IN
                    IF m.w > 0 THEN [x |-> m.t, o |-> o + lay[x].off[Head(p) + 1], w |-> m.w]
                    ELSE At(m.t, Tail(p), o + lay[x].off[Head(p) + 1])
Loc(p) == At(Root, p, 0)
Width(l) == IF l.w > 0 THEN l.w ELSE T(l.x).sz * 8
\* bits with meaning in a whole value: all but padding (any member of a union may be the one that counts)
RECURSIVE Data(_, _)
Data(x, o) ==
  CASE T(x).k = "leaf" -> {o + i : i \in 0..((IF T(x).flt = 80 THEN 80 ELSE Sz(x) * 8) - 1)}
    [] T(x).k = "arr" -> UNION {Data(T(x).e, o + i * Sz(T(x).e) * 8) : i \in 0..(T(x).n - 1)}
    [] OTHER -> UNION {LET m == T(x).m[i] b == o + lay[x].off[i] IN
                       IF m.w = 0 \/ (m.w > 0 /\ m.nm = "") THEN {} ELSE IF m.w > 0 THEN {b + j : j \in 0..(m.w - 1)} ELSE Data(m.t, b) : i \in 1..Len(T(x).m)}

(* integers in the image *)
Limb16(f, i, w) == LET RECURSIVE S(_)
                       S(j) == IF j >= 16 \/ i * 16 + j >= w THEN 0 ELSE f[i * 16 + j + 1] * 2 ^ j + S(j + 1) IN S(0)
Bits(l) == SubSeq(img, l.o + 1, l.o + Width(l))
Known(l) == \A i \in 1..Width(l) : Bits(l)[i] # 2
Raw(l) == LET f == Bits(l) IN TLCEval([i \in 1..4 |-> Limb16(f, i - 1, Width(l))])
Bool(l) == T(l.x).bool
Signed(l) == T(l.x).sgn
Val(l) == Ext(Raw(l), Width(l), Signed(l), 4)
Readable(l) == T(l.x).flt = 0 /\ Known(l) /\ (Bool(l) => Raw(l) \in {Zero(4), One(4)})
\* the value v (64 bits) as the object will hold it
Conv(l, v) == IF Bool(l) THEN (IF IsZero(v) THEN v ELSE One(4)) ELSE Ext(v, Width(l), Signed(l), 4)
Splice(im, o, f) == SubSeq(im, 1, o) \o f \o SubSeq(im, o + Len(f) + 1, Len(im))
WriteBits(im, o, w, v) == Splice(im, o, TLCEval([i \in 1..w |-> Bit(v, i - 1)]))
Store(im, l, v) == WriteBits(im, l.o, Width(l), Conv(l, v))

(* arithmetic of compound assignments: the type the operation is done in *)
PW(l) == IF Width(l) <= 32 THEN 32 ELSE 64
PS(l) == Signed(l) \/ Width(l) < 32          \* the promoted type is signed
Fits(v, w, sgn) == Ext(v, w, sgn, 4) = v
Lim(l) == IF Width(l) > 32 THEN Width(l) ELSE 32
Arith(sgn, op, a, b) ==
  CASE op = "+" -> Add(a, b) [] op = "-" -> Sub(a, b) [] op = "*" -> Mul(a, b)
    [] op = "&" -> And(a, b) [] op = "|" -> Or(a, b) [] op = "^" -> Xor(a, b)
    [] op = "<<" -> Shl(a, b[1]) [] op = ">>" -> Shr(a, b[1], IF sgn /\ IsNeg(a) THEN 65535 ELSE 0)
    [] op = "/" -> (IF sgn THEN SDivMod(a, b) ELSE UDivMod(a, b))[1] [] op = "%" -> (IF sgn THEN SDivMod(a, b) ELSE UDivMod(a, b))[2]
\* a (the object's value) op b (an int constant) is defined
Defined(l, op, a, b) ==
  LET r == Arith(PS(l), op, a, b) IN
  /\ op \in {"/", "%"} => ~IsZero(b) /\ ~IsNeg(b)
  /\ op \in {"<<", ">>"} => ~IsNeg(b) /\ b[1] < Lim(l) /\ ((op = "<<" /\ PS(l)) => ~IsNeg(a))
  /\ PS(l) => /\ Fits(r, Lim(l), TRUE)
              \* 64-bit arithmetic wraps: overflow shows as a wrong sign or, for * and <<, is kept out by small operands
              /\ (Lim(l) > 56 => \/ op \in {"&", "|", "^", ">>", "/", "%"}
                                 \/ (op = "+" /\ (IsNeg(a) # IsNeg(b) \/ IsNeg(r) = IsNeg(a)))
                                 \/ (op = "-" /\ (IsNeg(a) = IsNeg(b) \/ IsNeg(r) = IsNeg(a)))
                                 \/ (op \in {"*", "<<"} /\ Fits(a, 48, TRUE)))
Disjoint(l1, l2) == l1.o + Width(l1) <= l2.o \/ l2.o + Width(l2) <= l1.o
One4 == One(4)

Op == C.ops[k]
Out(ok, v) == [ok |-> ok, v |-> v]
Do ==
  LET o == Op l == Loc(o.p) IN
  CASE o.o = "set" -> img' = Store(img, l, o.v) /\ res' = Out(TRUE, Conv(l, o.v))
    [] o.o = "op" /\ Readable(l) /\ Defined(l, o.k, Val(l), o.v) ->
         LET r == Arith(PS(l), o.k, Val(l), o.v) IN img' = Store(img, l, r) /\ res' = Out(TRUE, Conv(l, r))
    [] o.o \in {"inc", "dec"} /\ Readable(l) /\ Defined(l, IF o.o = "inc" THEN "+" ELSE "-", Val(l), One4) ->
         LET r == Arith(PS(l), IF o.o = "inc" THEN "+" ELSE "-", Val(l), One4) IN
         img' = Store(img, l, r) /\ res' = Out(TRUE, IF o.k = "post" THEN Val(l) ELSE Conv(l, r))
    [] o.o = "get" /\ Readable(l) -> UNCHANGED img /\ res' = Out(TRUE, Val(l))
    [] o.o = "chain" /\ Disjoint(l, Loc(o.q)) ->
         LET l2 == Loc(o.q) v == Conv(l2, o.v) IN
         img' = Store(Store(img, l2, o.v), l, v) /\ res' = Out(TRUE, Conv(l, v))
    [] o.o = "mov" /\ Readable(Loc(o.q)) /\ Disjoint(l, Loc(o.q)) ->
         LET v == Val(Loc(o.q)) IN img' = Store(img, l, v) /\ res' = Out(TRUE, Conv(l, v))
    [] o.o = "flt" -> LET b == FromBytes(o.b) w == Sz(l.x) * 8 IN
         img' = Splice(img, l.o, b \o [i \in 1..(w - Len(b)) |-> 2]) /\ res' = Out(TRUE, <<>>)
    [] o.o = "copy" -> LET s == FromBytes(SubSeq(o.b, 1, Sz(l.x))) d == Data(l.x, 0) IN
         img' = Splice(img, l.o, TLCEval([i \in 1..Len(s) |-> IF (i - 1) \in d THEN s[i] ELSE 2])) /\ res' = Out(TRUE, <<>>)
    [] OTHER -> UNCHANGED img /\ res' = Out(FALSE, <<>>)
\* what the step may have changed, for the replay
Region(p) == LET l == Loc(p) w == IF l.w > 0 THEN l.w ELSE Sz(l.x) * 8 IN [o |-> l.o, f |-> SubSeq(img', l.o + 1, l.o + w)]
Run == /\ ph = "run" /\ k <= Len(C.ops) /\ Do /\ k' = k + 1
       /\ PrintT(ToJson([cid |-> cid, k |-> k, r |-> res', ch |-> IF ~res'.ok \/ Op.o = "get" THEN <<>> ELSE IF Op.o = "chain" THEN <<Region(Op.p), Region(Op.q)>> ELSE <<Region(Op.p)>>]))
       /\ UNCHANGED <<cid, nd, mi, bits, oal, lay, ph>>
\* every member lies inside its structure, and members of a structure do not overlap
SizeOf(m) == IF m.w >= 0 THEN m.w ELSE Sz(m.t) * 8
Sound == \A x \in 1..Len(lay) : T(x).k \in {"struct", "union"} =>
  /\ \A i \in 1..Len(T(x).m) : lay[x].off[i] + SizeOf(T(x).m[i]) <= lay[x].sz * 8
  /\ T(x).k = "struct" => \A i \in 1..(Len(T(x).m) - 1) : lay[x].off[i] + SizeOf(T(x).m[i]) <= lay[x].off[i + 1]
  /\ lay[x].sz % lay[x].al = 0
Init == /\ cid \in 1..Len(Cases) /\ nd = 1 /\ mi = 1 /\ bits = [b |-> 0, off |-> <<>>] /\ oal = 8
        /\ lay = <<>> /\ ph = "lay" /\ img = <<>> /\ k = 1 /\ res = <<>>
Report == /\ ph = "run" /\ k = Len(C.ops) + 1 /\ ph' = "end"
          /\ PrintT(ToJson([cid |-> cid, k |-> 0, lay |-> lay]))
          /\ UNCHANGED <<cid, nd, mi, bits, oal, lay, img, k, res>>
Next == LayStep \/ LayEnd \/ Run \/ Report
=============================================================================
