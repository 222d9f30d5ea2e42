------------------------------ MODULE NumSyntax ------------------------------
(* Which preprocessing numbers are integer or floating constants (C23 6.4.4): a recogniser that reads one character per step. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES cid, pos, st, sep
vars == <<cid, pos, st, sep>>
S == Cases[cid]
Dec == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Oct == Dec \ {"8", "9"}
Hex == Dec \cup {"a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
\* states in which a digit separator may follow
HasSep == {"zero", "oct", "badoct", "dec", "fracd", "exp", "hex", "hfracd", "bin", "hexp"}
\* suffixes of integers
IntSuffix(s, c) == CASE s = "int" /\ c \in {"u", "U"} -> "u"
                     [] s = "int" /\ c = "l" -> "l"  [] s = "int" /\ c = "L" -> "L"
                     [] s = "l" /\ c = "l" -> "ll"   [] s = "L" /\ c = "L" -> "ll"
                     [] s \in {"l", "L", "ll"} /\ c \in {"u", "U"} -> "iend"
                     [] s = "u" /\ c = "l" -> "ul"   [] s = "u" /\ c = "L" -> "uL"
                     [] s = "ul" /\ c = "l" -> "iend" [] s = "uL" /\ c = "L" -> "iend"
                     [] OTHER -> "bad"
FltSuffix(c) == IF c \in {"f", "F", "l", "L"} THEN "fend" ELSE "bad"
Step(s, c) ==
  CASE s = "start" -> (IF c = "0" THEN "zero" ELSE IF c \in Dec THEN "dec" ELSE IF c = "." THEN "dot" ELSE "bad")
    [] s = "zero" /\ c \in {"x", "X"} -> "zx"
    [] s = "zero" /\ c \in {"b", "B"} -> "zb"
    [] s \in {"zero", "oct"} /\ c \in Oct -> "oct"
    [] s \in {"zero", "oct", "badoct"} /\ c \in Dec -> "badoct"
    [] s = "dec" /\ c \in Dec -> "dec"
    [] s \in {"zero", "oct", "badoct", "dec"} /\ c = "." -> "frac"
    [] s \in {"zero", "oct", "badoct", "dec", "frac", "fracd"} /\ c \in {"e", "E"} -> "e"
    [] s \in {"zero", "oct", "badoct", "dec"} /\ c \in {"f", "F"} -> "ext"      \* 1f: accepted by slimcc as an extension, not judged
    [] s \in {"zero", "oct", "dec"} -> IntSuffix("int", c)
    [] s = "dot" -> (IF c \in Dec THEN "fracd" ELSE "bad")
    [] s \in {"frac", "fracd"} /\ c \in Dec -> "fracd"
    [] s \in {"frac", "fracd"} -> FltSuffix(c)
    [] s = "e" -> (IF c \in {"+", "-"} THEN "es" ELSE IF c \in Dec THEN "exp" ELSE "bad")
    [] s = "es" -> (IF c \in Dec THEN "exp" ELSE "bad")
    [] s = "exp" -> (IF c \in Dec THEN "exp" ELSE FltSuffix(c))
    [] s = "zb" -> (IF c \in {"0", "1"} THEN "bin" ELSE "bad")
    [] s = "bin" -> (IF c \in {"0", "1"} THEN "bin" ELSE IntSuffix("int", c))
    [] s = "zx" -> (IF c \in Hex THEN "hex" ELSE IF c = "." THEN "hdot" ELSE "bad")
    [] s = "hex" /\ c \in Hex -> "hex"
    [] s = "hex" /\ c = "." -> "hfrac"
    [] s \in {"hex", "hfrac", "hfracd"} /\ c \in {"p", "P"} -> "hp"
    [] s = "hex" -> IntSuffix("int", c)
    [] s = "hdot" -> (IF c \in Hex THEN "hfracd" ELSE "bad")
    [] s \in {"hfrac", "hfracd"} /\ c \in Hex -> "hfracd"
    [] s = "hp" -> (IF c \in {"+", "-"} THEN "hps" ELSE IF c \in Dec THEN "hexp" ELSE "bad")
    [] s = "hps" -> (IF c \in Dec THEN "hexp" ELSE "bad")
    [] s = "hexp" -> (IF c \in Dec THEN "hexp" ELSE FltSuffix(c))
    [] s \in {"u", "l", "L", "ll", "ul", "uL"} -> IntSuffix(s, c)
    [] OTHER -> "bad"
IntEnds == {"zero", "oct", "dec", "bin", "hex", "u", "l", "L", "ll", "ul", "uL", "iend"}
FltEnds == {"frac", "fracd", "exp", "hexp", "fend"}
SepDigits == CASE st \in {"hex", "hfracd"} -> Hex [] st = "bin" -> {"0", "1"} [] OTHER -> Dec
Init == (\E i \in 1..Len(Cases) : cid = i) /\ pos = 1 /\ st = "start" /\ sep = FALSE
Read == /\ pos <= Len(S) /\ st # "bad" /\ st # "done" /\ pos' = pos + 1
        /\ IF S[pos] = "'" THEN IF sep \/ st \notin HasSep THEN st' = "bad" /\ sep' = FALSE ELSE sep' = TRUE /\ UNCHANGED st
           ELSE IF sep /\ S[pos] \notin SepDigits THEN st' = "bad" /\ sep' = FALSE
           ELSE st' = Step(st, S[pos]) /\ sep' = FALSE
        /\ UNCHANGED cid
Verdict(s) == IF sep /\ st # "ext" THEN "bad" ELSE IF s \in IntEnds THEN "int" ELSE IF s \in FltEnds THEN "flt" ELSE s
Finish == /\ st # "done" /\ (pos > Len(S) \/ st = "bad") /\ st' = "done"
          /\ PrintT(ToJson([cid |-> cid, v |-> Verdict(st)]))
          /\ UNCHANGED <<cid, pos, sep>>
Next == Read \/ Finish
\* a separator is always between digits: a state that allows one has read a digit
SepInside == sep => st \in HasSep /\ pos > 2
==============================================================================
