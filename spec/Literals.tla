------------------------------ MODULE Literals ------------------------------
(***************************************************************************)
(* The value of character constants, string literals, integer and floating  *)
(* literals.  A case is a spelling (code points); the machine scans it once *)
(* and appends code units.  Values wider than TLC's integers are kept as    *)
(* 16-bit limbs, least significant first.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, seg, pos, units, phase
vars == <<cid, seg, pos, units, phase>>
C == Cases[cid]

---- \* digits and limbs
HexVal(c) == IF c >= 48 /\ c <= 57 THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 99
IsHex(c) == HexVal(c) < 16
IsOct(c) == c >= 48 /\ c <= 55
\* limbs * m + a  (n limbs; last element of the result is the overflow)
RECURSIVE MulAdd(_, _, _, _)
MulAdd(l, m, a, i) == IF i > Len(l) THEN <<a>>
                      ELSE LET x == l[i] * m + a IN <<x % 65536>> \o MulAdd(l, m, x \div 65536, i + 1)
RECURSIVE FromDigits(_, _, _)
\* value of a sequence of digits as 5 limbs; limb 5 is non-zero exactly if it does not fit 64 bits
FromDigits(ds, base, acc) ==
  IF ds = <<>> THEN acc
  ELSE LET r == MulAdd(SubSeq(acc, 1, 4), base, Head(ds), 1)
       IN FromDigits(Tail(ds), base, [r EXCEPT ![5] = IF @ + acc[5] > 0 THEN 1 ELSE 0])
Value(ds, base) == FromDigits(ds, base, <<0, 0, 0, 0, 0>>)

---- \* character encodings: width 1 (UTF-8), 2 (UTF-16), 4 (UTF-32); a unit is <<lo, hi>>
U(n) == <<n % 65536, n \div 65536>>
Encode(w, c) ==
  IF w = 4 THEN <<U(c)>>
  ELSE IF w = 2 THEN (IF c < 65536 THEN <<U(c)>> ELSE <<U(55296 + (c - 65536) \div 1024), U(56320 + ((c - 65536) % 1024))>>)
  ELSE IF c < 128 THEN <<U(c)>>
  ELSE IF c < 2048 THEN <<U(192 + c \div 64), U(128 + (c % 64))>>
  ELSE IF c < 65536 THEN <<U(224 + c \div 4096), U(128 + ((c \div 64) % 64)), U(128 + (c % 64))>>
  ELSE <<U(240 + c \div 262144), U(128 + ((c \div 4096) % 64)), U(128 + ((c \div 64) % 64)), U(128 + (c % 64))>>

Fits(w, v) == v[3] = 0 /\ v[4] = 0 /\ v[5] = 0 /\ (w = 4 \/ v[2] = 0) /\ (w > 1 \/ v[1] < 256)

Simple == (110 :> 10) @@ (116 :> 9) @@ (97 :> 7) @@ (98 :> 8) @@ (102 :> 12) @@ (114 :> 13) @@ (118 :> 11) @@ (101 :> 27)
          @@ (92 :> 92) @@ (39 :> 39) @@ (34 :> 34) @@ (63 :> 63)

Width(p) == CASE p \in {"", "u8"} -> 1 [] p = "u" -> 2 [] p \in {"U", "L"} -> 4
\* adjacent literals: the prefix of the whole is the one prefix that occurs
RECURSIVE Common(_, _)
Common(segs, p) == IF segs = <<>> THEN p
                   ELSE Common(Tail(segs), IF Head(segs).p = "" THEN p ELSE IF p = "" \/ p = Head(segs).p THEN Head(segs).p ELSE "bad")
Prefix == IF C.k = "chr" THEN C.p ELSE Common(C.segs, "")
Raw == IF C.k = "chr" THEN C.raw ELSE C.segs[seg].raw
W == Width(Prefix)

At(i) == IF i <= Len(Raw) THEN Raw[i] ELSE 0
RECURSIVE HexEnd(_)
HexEnd(i) == IF IsHex(At(i)) THEN HexEnd(i + 1) ELSE i
OctEnd(i) == IF ~IsOct(At(i + 1)) THEN i + 1 ELSE IF ~IsOct(At(i + 2)) THEN i + 2 ELSE i + 3
Digits(i, j) == [n \in 1..(j - i) |-> HexVal(Raw[i + n - 1])]
Bad == phase' = "bad" /\ UNCHANGED <<seg, pos, units>>
Emit(us, j) == units' = units \o us /\ pos' = j /\ UNCHANGED <<seg, phase>>
Numeric(v, j) == IF Fits(W, v) THEN Emit(<<<<v[1], v[2]>>>>, j) ELSE Bad
Ucn(n) == LET j == pos + 2 + n IN
  IF \E i \in pos + 2 .. j - 1 : ~IsHex(At(i)) THEN Bad
  ELSE LET v == Value(Digits(pos + 2, j), 16)
           c == v[1] + v[2] * 65536
       IN IF v[2] > 16 \/ (c >= 55296 /\ c < 57344) \/ (c < 160 /\ c \notin {36, 64, 96}) THEN Bad ELSE Emit(Encode(W, c), j)

Scan == /\ phase = "scan" /\ C.k \in {"str", "chr"} /\ pos <= Len(Raw) /\ UNCHANGED cid
        /\ LET c == At(pos) d == At(pos + 1) IN
           IF c # 92 THEN Emit(Encode(W, c), pos + 1)
           ELSE IF IsOct(d) THEN Numeric(Value(Digits(pos + 1, OctEnd(pos + 1)), 8), OctEnd(pos + 1))
           ELSE IF d = 120 THEN (IF IsHex(At(pos + 2)) THEN Numeric(Value(Digits(pos + 2, HexEnd(pos + 2)), 16), HexEnd(pos + 2)) ELSE Bad)
           ELSE IF d = 117 THEN Ucn(4)
           ELSE IF d = 85 THEN Ucn(8)
           ELSE IF d \in DOMAIN Simple THEN Emit(<<U(Simple[d])>>, pos + 2)
           ELSE Bad
NextSeg == /\ phase = "scan" /\ C.k = "str" /\ pos > Len(Raw) /\ seg < Len(C.segs) /\ seg' = seg + 1 /\ pos' = 1 /\ UNCHANGED <<cid, units, phase>>

---- \* integer literals: type by value, base and suffix
Bits(v) == \* number of bits needed
  LET top == IF v[4] > 0 THEN 4 ELSE IF v[3] > 0 THEN 3 ELSE IF v[2] > 0 THEN 2 ELSE 1
      RECURSIVE N(_)
      N(x) == IF x = 0 THEN 0 ELSE 1 + N(x \div 2)
  IN (top - 1) * 16 + N(v[top])
IntType(b, dec, u, l) ==
  LET first(s) == s[CHOOSE i \in 1..Len(s) : s[i][2] >= b /\ \A j \in 1..i-1 : s[j][2] < b][1]
      i == <<"int", 31>> ui == <<"uint", 32>> lo == <<"long", 63>> ul == <<"ulong", 64>> ll == <<"llong", 63>> ull == <<"ullong", 64>>
  IN CASE u /\ l = 0 -> first(<<ui, ul, ull>>) [] u /\ l = 1 -> first(<<ul, ull>>) [] u /\ l = 2 -> "ullong"
       [] dec /\ l = 0 -> first(<<i, lo, ll>>) [] dec /\ l = 1 -> first(<<lo, ll>>) [] dec /\ l = 2 -> "llong"
       [] l = 0 -> first(<<i, ui, lo, ul>>) [] l = 1 -> first(<<lo, ul>>) [] OTHER -> first(<<ll, ull>>)

---- \* floating literals: M * 2^e with M a bit sequence (most significant first), rounded once to nearest even
HexBits(d) == <<(d \div 8) % 2, (d \div 4) % 2, (d \div 2) % 2, d % 2>>
RECURSIVE AllBits(_)
AllBits(ds) == IF ds = <<>> THEN <<>> ELSE HexBits(Head(ds)) \o AllBits(Tail(ds))
RECURSIVE IntBits(_)
IntBits(n) == IF n = 0 THEN <<>> ELSE IntBits(n \div 2) \o <<n % 2>>
RECURSIVE Strip(_)
Strip(b) == IF b = <<>> \/ Head(b) = 1 THEN b ELSE Strip(Tail(b))
RECURSIVE Inc(_)   \* add one to a bit sequence; the result may be one longer
Inc(b) == IF b = <<>> THEN <<1>> ELSE IF b[Len(b)] = 0 THEN [b EXCEPT ![Len(b)] = 1] ELSE Inc(SubSeq(b, 1, Len(b) - 1)) \o <<0>>
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Pow5(_)
Pow5(n) == IF n = 0 THEN 1 ELSE 5 * Pow5(n - 1)

Fmt(t) == CASE t = "float" -> [p |-> 24, bias |-> 127, eb |-> 8, size |-> 4, hidden |-> TRUE]
            [] t = "double" -> [p |-> 53, bias |-> 1023, eb |-> 11, size |-> 8, hidden |-> TRUE]
            [] t = "ldouble" -> [p |-> 64, bias |-> 16383, eb |-> 15, size |-> 10, hidden |-> FALSE]
\* value: [m: bits, e: exponent of the last bit]; result: bytes, least significant first
RECURSIVE BitN(_, _)
BitN(n, w) == IF w = 0 THEN <<>> ELSE BitN(n \div 2, w - 1) \o <<n % 2>>
RECURSIVE Bytes(_)
Bytes(b) == IF b = <<>> THEN <<>>
            ELSE LET x == SubSeq(b, Len(b) - 7, Len(b))
                 IN <<x[1]*128 + x[2]*64 + x[3]*32 + x[4]*16 + x[5]*8 + x[6]*4 + x[7]*2 + x[8]>> \o Bytes(SubSeq(b, 1, Len(b) - 8))
Float(f, m0, e0) ==
  LET m == Strip(m0)
      E == e0 + Len(m) - 1                         \* exponent of the leading bit
      emin == 1 - f.bias
      top == IF E >= emin THEN E ELSE emin
      lsb == top - f.p + 1                         \* exponent of the last bit of the result
      n == E - lsb + 1                             \* bits of m that are kept
      q == IF n <= 0 THEN <<>> ELSE IF n <= Len(m) THEN SubSeq(m, 1, n) ELSE m \o Zeros(n - Len(m))
      rest == IF n < 0 THEN <<0>> \o m ELSE IF n < Len(m) THEN SubSeq(m, n + 1, Len(m)) ELSE <<>>
      up == IF rest = <<>> THEN FALSE ELSE IF rest[1] = 0 THEN FALSE
            ELSE IF \E i \in 2..Len(rest) : rest[i] = 1 THEN TRUE ELSE IF q = <<>> THEN FALSE ELSE q[Len(q)] = 1
      r == IF up THEN Inc(q) ELSE q
      carry == Len(r) > f.p
      E2 == IF carry THEN top + 1 ELSE top
      man == IF carry THEN SubSeq(r, 1, f.p) ELSE Zeros(f.p - Len(r)) \o r
      ex == IF man[1] = 1 THEN E2 + f.bias ELSE 0
      frac == IF f.hidden THEN SubSeq(man, 2, f.p) ELSE man
  IN IF m = <<>> THEN Bytes(Zeros(f.size * 8))
     ELSE IF E2 > f.bias THEN <<>>                 \* out of range: no defined value
     ELSE Bytes(<<0>> \o BitN(ex, f.eb) \o frac)
FloatBytes ==
  IF C.hex THEN Float(Fmt(C.t), AllBits(C.ds), C.e)             \* hex digits, exponent of the last bit
  ELSE IF C.e <= 0 THEN Float(Fmt(C.t), IntBits(C.m \div Pow5(-C.e)), C.e)   \* m * 10^e, exact
  ELSE Float(Fmt(C.t), IntBits(C.m * Pow5(C.e)), C.e)

Init == /\ \E i \in 1..Len(Cases) : cid = i
        /\ seg = 1 /\ pos = 1 /\ units = <<>> /\ phase = "scan"
Rec(ok, ty, us) == PrintT(ToJson([cid |-> cid, ok |-> ok, ty |-> ty, units |-> us]))
Done(ok, ty, us) == phase' = "done" /\ Rec(ok, ty, us) /\ UNCHANGED <<cid, seg, pos, units>>
\* a narrow constant has type int and the value of a (signed) char
CharValue(p, u) == IF p = "" /\ u[1] >= 128 THEN <<65280 + u[1], 65535>> ELSE u
Finish ==
  \/ /\ phase = "bad" /\ Done(0, "", <<>>)
  \/ /\ phase = "scan" /\ C.k = "str" /\ pos > Len(Raw) /\ seg = Len(C.segs)
     /\ IF C.n > 0
        THEN IF C.n < Len(units) THEN Done(0, "", <<>>)      \* too long for the array
             ELSE Done(1, Prefix, [i \in 1..C.n |-> IF i <= Len(units) THEN units[i] ELSE <<0, 0>>])
        ELSE Done(1, Prefix, units \o <<<<0, 0>>>>)
  \/ /\ phase = "scan" /\ C.k = "chr" /\ pos > Len(Raw)
     /\ IF Len(units) # 1 THEN Done(0, "", <<>>) ELSE Done(1, C.p, <<CharValue(C.p, units[1])>>)
  \/ /\ phase = "scan" /\ C.k = "int"
     /\ LET v == Value(C.ds, C.base) b == Bits(v) IN
        IF v[5] # 0 \/ (C.base = 10 /\ ~C.u /\ b > 63) THEN Done(0, "", <<>>)
        ELSE Done(1, IntType(b, C.base = 10, C.u, C.l), <<SubSeq(v, 1, 4)>>)
  \/ /\ phase = "scan" /\ C.k = "flt" /\ Done(IF FloatBytes = <<>> THEN 2 ELSE 1, C.t, <<FloatBytes>>)
Next == Scan \/ NextSeg \/ Finish
UnitsOk == \A i \in 1..Len(units) : W = 4 \/ (units[i][2] = 0 /\ (W = 2 \/ units[i][1] < 256))
=============================================================================
