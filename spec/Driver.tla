------------------------------- MODULE Driver -------------------------------
(***************************************************************************)
(* The compiler driver: for each input, by its language and the mode, a     *)
(* pipeline preprocess / compile / assemble, then one link.  Any step may   *)
(* fail; a failure stops the run, and every exit removes the temporaries.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
MaxFault == 4
VARIABLES cid, fault,                \* fault: 0 or the number of the assembler/linker call that fails
          i, lang, calls, files, out, objs, tmps, asm, phase
vars == <<cid, fault, i, lang, calls, files, out, objs, tmps, asm, phase>>
C == Cases[cid]
In == C.items[i]
NInputs == Cardinality({k \in 1..Len(C.items) : C.items[k].t = "in"})
Tool == Len(calls)

\* language of an input: -x wins, else its suffix
Suffix == (".c" :> "c") @@ (".s" :> "asm") @@ (".S" :> "cppasm") @@ (".o" :> "obj") @@ (".a" :> "obj") @@ (".so" :> "obj") @@ (".lo" :> "obj")
          @@ (".so.1.2" :> "obj")
XLang == ("c" :> "c") @@ ("assembler" :> "asm") @@ ("assembler-with-cpp" :> "cppasm")
Lang == IF lang # "none" THEN XLang[lang] ELSE IF In.ext \in DOMAIN Suffix THEN Suffix[In.ext]
        ELSE IF C.mode = "E" /\ In.ext \in {".h", "-"} THEN "c" ELSE "bad"

Default(ext) == In.base \o ext
ObjName == IF C.o # "" THEN C.o ELSE Default(".o")
AsmName == IF C.o # "" THEN C.o ELSE Default(".s")
Put(name, c) == IF name = "-" THEN out' = Append(out, c) /\ UNCHANGED files
                ELSE files' = [n \in DOMAIN files \cup {name} |-> IF n = name THEN c ELSE files[n]] /\ UNCHANGED out

Fail == phase' = "failed" /\ UNCHANGED <<cid, fault, i, lang, files, out, objs, asm>>
Step == /\ i' = i + 1 /\ asm' = "" /\ UNCHANGED <<cid, fault, lang, phase>>
Dry == C.dry
NoLink == C.mode \in {"c", "S", "E", "M"}

Begin == /\ phase = "start"
         /\ IF NInputs = 0 \/ (NInputs > 1 /\ C.o # "" /\ C.mode \in {"c", "S", "E"})
            THEN Fail /\ UNCHANGED <<calls, tmps>>
            ELSE phase' = "run" /\ UNCHANGED <<cid, fault, i, lang, calls, files, out, objs, tmps, asm>>
Running == phase = "run" /\ i <= Len(C.items)
SetLang == /\ Running /\ In.t = "x" /\ i' = i + 1 /\ lang' = In.lang
           /\ UNCHANGED <<cid, fault, calls, files, out, objs, tmps, asm, phase>>
BadSuffix == Running /\ In.t = "in" /\ Lang = "bad" /\ Fail /\ UNCHANGED <<calls, tmps>>
Object == /\ Running /\ In.t = "in" /\ Lang = "obj" /\ objs' = Append(objs, "OBJ:" \o In.m) /\ Step /\ UNCHANGED <<calls, files, out, tmps>>
\* front end: fails on a bad or missing input, else gives text
FrontFails == In.bad \in {"missing", "lex"} \/ (Lang = "c" /\ In.bad \in {"parse", "gen"} /\ C.mode \notin {"E", "M"})
              \/ In.bad = "pp" \/ (In.bad = "big" /\ C.nospace /\ C.mode # "M")
Pre == /\ Running /\ In.t = "in" /\ Lang \in {"c", "cppasm"} /\ asm = ""
       /\ (C.mode \in {"E", "M"} \/ (Lang = "cppasm" /\ C.mode = "S"))
       /\ IF Dry THEN Step /\ UNCHANGED <<calls, files, out, objs, tmps>>
          ELSE IF FrontFails THEN Fail /\ UNCHANGED <<calls, tmps>>
          ELSE Put(IF C.o # "" THEN C.o ELSE "-", (IF C.mode = "M" THEN "dep:" ELSE "pp:") \o In.m) /\ Step /\ UNCHANGED <<calls, objs, tmps>>
Compile == /\ Running /\ In.t = "in" /\ C.mode \notin {"E", "M"} /\ asm = ""
           /\ (Lang = "c" \/ (Lang = "cppasm" /\ C.mode # "S"))
           /\ IF C.mode = "S"
              THEN (IF Dry THEN Step /\ UNCHANGED <<calls, files, out, objs, tmps>>
                    ELSE IF FrontFails THEN Fail /\ UNCHANGED <<calls, tmps>>
                    ELSE Put(AsmName, "asm:" \o In.m) /\ Step /\ UNCHANGED <<calls, objs, tmps>>)
              ELSE /\ tmps' = tmps \cup {<<i, "s">>}
                   /\ IF FrontFails /\ ~Dry THEN Fail /\ UNCHANGED calls
                      ELSE asm' = "ASM:" \o In.m /\ UNCHANGED <<cid, fault, i, lang, calls, files, out, objs, phase>>
AsmSkip == Running /\ In.t = "in" /\ Lang = "asm" /\ C.mode \in {"S", "E", "M"} /\ Step /\ UNCHANGED <<calls, files, out, objs, tmps>>
AsmDirect == /\ Running /\ In.t = "in" /\ Lang = "asm" /\ C.mode \in {"c", "link"} /\ asm = ""
             /\ asm' = (IF In.bad = "missing" THEN "?" ELSE "ASM:" \o In.m) /\ UNCHANGED <<cid, fault, i, lang, calls, files, out, objs, tmps, phase>>
Call(s) == calls' = IF Dry THEN calls ELSE Append(calls, s)
Assemble == /\ Running /\ In.t = "in" /\ asm # ""
            /\ Call("as" \o C.asx \o " " \o asm)
            /\ IF (fault = Tool + 1 \/ asm = "?") /\ ~Dry
               THEN tmps' = (IF C.mode = "c" THEN tmps ELSE tmps \cup {<<i, "o">>}) /\ Fail
               ELSE IF C.mode = "c" THEN (IF Dry THEN UNCHANGED <<files, out>> ELSE Put(ObjName, "OBJ " \o asm)) /\ Step /\ UNCHANGED <<objs, tmps>>
               ELSE tmps' = tmps \cup {<<i, "o">>} /\ objs' = Append(objs, "OBJ:" \o In.m) /\ Step /\ UNCHANGED <<files, out>>
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN "" ELSE " " \o Head(s) \o Join(Tail(s))
Line == Join(objs) \o Join(C.ldx)
Link == /\ phase = "run" /\ i > Len(C.items)
        /\ IF NoLink \/ Dry \/ objs = <<>> THEN phase' = "ok" /\ UNCHANGED <<cid, fault, i, lang, calls, files, out, objs, tmps, asm>>
           ELSE /\ Call("ld" \o Line)
                /\ IF fault = Tool + 1 THEN Fail /\ UNCHANGED tmps
                   ELSE Put(IF C.o # "" THEN C.o ELSE "a.out", "EXE" \o Line) /\ phase' = "ok" /\ UNCHANGED <<cid, fault, i, lang, objs, tmps, asm>>
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<<<x, files[x]>>>> \o SetSeq(S \ {x})
Exit == /\ phase \in {"ok", "failed"} /\ phase' = (IF phase = "ok" THEN "exit0" ELSE "exit1")
        /\ tmps' = {}
        /\ PrintT(ToJson([cid |-> cid, fault |-> fault, rc |-> IF phase = "ok" THEN 0 ELSE 1, at |-> i, calls |-> calls, files |-> SetSeq(DOMAIN files), out |-> out]))
        /\ UNCHANGED <<cid, fault, i, lang, calls, files, out, objs, asm>>
Init == /\ \E k \in 1..Len(Cases) : cid = k
        /\ fault \in 0..MaxFault
        /\ i = 1 /\ lang = "none" /\ calls = <<>> /\ files = <<>> /\ out = <<>> /\ objs = <<>> /\ tmps = {} /\ asm = "" /\ phase = "start"
Next == Begin \/ SetLang \/ BadSuffix \/ Object \/ Pre \/ Compile \/ AsmSkip \/ AsmDirect \/ Assemble \/ Link \/ Exit
\* properties of the design
NoDebris == phase \in {"exit0", "exit1"} => tmps = {}
StatusRight == phase = "exit0" => (fault = 0 \/ fault > Len(calls))
OneLink == Cardinality({k \in 1..Len(calls) : calls[k] = "ld" \o Line}) <= 1
NoOutputWithoutRequest == C.dry => files = <<>> /\ out = <<>>
LinkOnlyWhenAllDone == (phase = "exit0" /\ C.mode = "link" /\ ~Dry /\ objs # <<>>) => Cardinality(DOMAIN files) = 1
=============================================================================
