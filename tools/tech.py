TECH["P02"] = ("TLA+ machine of conditional inclusion (CondIncl.tla): TLC enumerates every directive sequence up to a depth and runs generated nests; each behaviour replayed through slimcc -E",
  "Exhaustive over all directive sequences of length 4 (5 in thorough) over a 16-line alphabet, plus generated deep nests with 21 header shapes; assumes headers outside that set of guard shapes behave alike.")
TECH["P03"] = ("TLA+ refinement: TLC checks exhaustively that the open-addressing table of MacroTable.tla implements a map, and every enumerated/generated history is replayed through slimcc -E on names built to collide",
  "Design refinement exhaustive for tables of 3-4 keys; replay covers all histories of length 4 (6 in thorough) over three colliding names and generated histories with churn of hundreds of names, -D/-U prefixes and names with equal 64-bit hashes.")
TECH["P04"] = ("TLA+ machine of include search without memory (IncludeSearch.tla) run by TLC on generated directory trees; the same trees and command lines given to slimcc -E and -M/-MM/-MD/-MMD/-MP",
  "Generated trees (2500 quick, 25000 thorough) with up to 7 directories, sub-directories, duplicate and system search directories, include_next chains; #include_next where compilers differ is excluded and counted.")
TECH["P05"] = ("TLA+ machine of physical/presumed lines (LineNumbering.tla) run by TLC on generated translation units; the same files read by slimcc -E and every location compared; the line table (-g) of generated functions compared with the places the machine gives",
  "Generated files with splices, comments, multi-line invocations, nested and repeated inclusion, #line and line markers; lines of continued lines are compared as ranges.")
TECH["P06"] = ("TLA+ transducer from literal spellings to code units, limbs and rounded bit patterns (Literals.tla) run by TLC on generated literals; each literal compiled by slimcc and its bytes, size and type compared; a recogniser of the grammar of numbers (NumSyntax.tla), one character per step, decides which spellings must be accepted as integers or floating constants or rejected",
  "6000 literals per quick run (60000 thorough) over every escape class, prefix, concatenation, array size, integer base/suffix boundary and hex-float rounding boundary; decimal floating literals limited to exactly representable values; u8 character constants are not implemented by slimcc and excluded; 3000 spellings at and around the grammar of numbers (40000 thorough); 1f (accepted by slimcc as an extension) is not judged.")
TECH["P07"] = ("TLA+ machine of the driver with faults (Driver.tla): TLC enumerates every command line of the alphabet with every failing assembler/linker call; each behaviour replayed with stand-in tools that log inputs and fail on cue",
  "All pairs (triples in thorough) of 7 input kinds plus generated longer command lines x 5 modes x every failing call; faults are exit codes, signals, a missing tool and write errors; kills of the compiler process itself are not injected.")
TECH["P08"] = ("TLA+ machine of statements, jumps and pending actions (ControlFlow.tla) run by TLC on generated functions, which are compiled by slimcc and their traces and returned values compared; its static verdict decides which jumps must be rejected",
  "3500 generated functions per quick run (40000 thorough) mixing every statement form, nested defers, cleanup variables (also in conditions and for clauses), VLAs, statement expressions, labelled break/continue, goto and 12 return types; jumps into cleanup scopes and statement expressions are not judged.")
TECH["P09"] = ("TLA+ machine of one switch over limb arithmetic (Switch.tla, Limbs.tla) run by TLC on generated label sets and controlling values; the functions compiled by slimcc at -O0 and -O1 are called with every value and the arms run compared",
  "2500 switches x up to 14 values per quick run (30000 thorough) over 12 integer types and bit-fields up to 32 bits, label constants spelled in several types, adjacent/extreme/whole-type ranges, overlapping label sets must be rejected; reversed (empty) ranges are not judged.")
TECH["P12"] = ("TLA+ stack machine for typed integer expressions over limb arithmetic (IntExpr.tla, Limbs.tla) run by TLC on generated operator trees; each tree compiled by slimcc with variable, mixed and constant operands at -O0 and -O1 (and evaluated in #if), values and result types compared",
  "9000 trees x 3 operand renderings x 2 optimization levels and 2500 #if expressions per quick run (60000/15000 thorough), 12 kinds of operand storage, 10 ways of using the value, assignment and increment forms; trees whose evaluation is undefined (decided by the specification, respecting unevaluated operands) are discarded; wide results in enums and _BitInt are not covered.")
TECH["P13"] = ("TLA+ machine of conversion chains with exact floating values and round-to-nearest in limb arithmetic (ConvChain.tla, Floats.tla) run by TLC on generated chains; each chain compiled by slimcc through casts, assignments, calls, returns, usual conversions and as constants at -O0 and -O1, result bytes compared",
  "20000 chains per quick run (180000 thorough) covering all 15x15 ordered type pairs with values at the types' limits, rounding ties, subnormals, infinities and NaNs; conversions that C leaves undefined (decided by the specification) are discarded; default rounding mode only.")
TECH["P21"] = ("TLA+ stack machine for mixed floating/integer expressions with exactly computed, once-rounded results in limb arithmetic (FloatExpr.tla, Floats.tla) run by TLC on generated operator trees; each tree compiled by slimcc with variable, mixed and constant operands at -O0 and -O1, result bytes and types compared",
  "9000 trees per quick run (90000 thorough) with operands near rounding ties, subnormals, overflow, infinities and NaNs, under !, ?:, loops, &&, assignments and increments; default rounding mode; NaN sign and payload are not compared.")
TECH["P10"] = ("TLA+ machine of the initializer's current object (Initializer.tla) that itself produces initializers token by token (positional, braced, designated, ranges, strings, whole aggregates) and what every scalar subobject must hold; each behaviour is rendered in C for static, thread-local, automatic and compound-literal objects, compiled by slimcc at -O0 and -O1 and every leaf read back",
  "4000 type/initializer pairs per quick run (40000 thorough); types up to 40 nodes with unions, bit-fields, anonymous members, flexible array members; designators that must be rejected; leaves given and then covered by re-initialization of their aggregate, and members of unions given up and returned to, are not judged.")
TECH["P11"] = ("TLA+ machine (Layout.tla, Limbs.tla) that lays out structures and unions member by member (offsets, sizes, alignments under packed/aligned/_Alignas, bit-fields) and then runs a history of reads, stores, compound assignments and copies on a bit image of the object, run by TLC on generated types; slimcc's sizeof/_Alignof/offsetof, every value yielded and every byte of the object after every access are compared at -O0 and -O1, with objects placed in static, automatic, array and page-edge storage",
  "2400 types x ~11 accesses per quick run (30000 thorough); up to three levels of nested and anonymous aggregates, all integer types as bit-fields, unnamed and zero-width ones, flexible array members; unions' copies are judged on their members' bits, padding is not judged.")
TECH["P14"] = ("TLA+ machine (CallConv.tla on top of Layout.tla) that classifies parameter and result types, places every argument in registers or stack bytes, and walks scripts of va_start/va_arg/va_copy/va_end and list passing over up to three lists, with invariants that lists look where the arguments were put and no two arguments overlap; assembly glue calls slimcc's functions with the register and stack images the model prescribes and judges the images slimcc's own calls produce (arguments, %al, alignment, x87 and control state, callee-saved registers, results), with va_list helpers compiled by gcc or slimcc",
  "1500 signatures per quick run (20000 thorough) of up to 18 parameters, prototyped, unprototyped and variadic, at -O0 and -O1; padding bytes are not judged; classification of padding bit-fields and of unions mixing long double, floating and integer members (where compilers differ) is not judged.")
TECH["P19"] = ("TLA+ evaluator of statements over typed memory cells (Effects.tla), recursive over expression nodes, that yields for every statement the value, the memory after it, the calls made and the order C imposes on them (sequencing edges), run by TLC on generated programs and checked to keep every cell in its type and every edge forward; the programs are compiled by slimcc in seven modes against a harness whose functions disturb every register calls may disturb, and value, memory, calls and orders are compared after every statement",
  "2400 programs of about 5 statements per quick run (40000 thorough): towers of pending integer, floating, long double and structure temporaries around calls of 17 signatures, increments, compound assignments, bit-fields, &&/||/?:/comma/statement expressions, atomics, VLA and over-aligned frames, TLS under -fPIC (as a shared object) and -femulated-tls; statements with unsequenced conflicts (decided by the generator's read/write sets) are not produced.")
TECH["P17"] = ("TLA+ machine of declarations (Linkage.tla): TLC enumerates every sequence of declaration forms of an identifier (five classes of forms) and processes generated pairs of translation units, yielding each unit's symbol table (defined, local, referenced or absent; weak, visibility, section, size, common, alias), what must be refused, the value of every function once linked and the order of constructors and destructors; slimcc's ELF symbols are read and the linked programs run under seven option sets",
  "All 5972 valid sequences of up to 3 of 10 to 28 forms per class (4 in thorough) and 2800 generated two-unit programs (40000 thorough); declarations C leaves undefined or compilers refuse beyond C (decided by the specification) are discarded; plain static definitions may be dropped or kept; ELF types of data symbols are not judged.")
TECH["P18"] = ("TLA+ machine of one atomic operation among others' writes (AtomicOps.tla on FloatExpr.tla) run by TLC over every interleaving, plus the compare-exchange loop with several threads checked against an atomic cell (AtomicLoop.tla); the operations compiled by slimcc are single-stepped with others' writes injected before every instruction (and at sampled pairs of instructions), and object, value and expected object must match a behaviour whose instant lies within the operation; the instruction that changes the object must be locked, no value seen in between may be torn, and neighbouring bytes stay",
  "1500 operations per quick run (20000 thorough) over all integer widths, _Bool, pointers, float and double, six placements, five operand forms, operators and <stdatomic.h> forms, at -O0 and -O1: about 270000 injected runs; structures and long double (rejected by slimcc) are not covered, orderings weaker than sequential consistency are treated alike.")
TECH["P16"] = ("StackLife.tla: a machine that runs function bodies (nested blocks, loops with objects in their heads, goto, break, continue, return, recursion, statement expressions inside larger expressions, comma expressions) and keeps, per activation, the objects alive (named objects, compound literals, structures returned by calls, variable-length arrays, alloca blocks, objects with clean-ups) and the variable-length arrays on the stack; TLC runs each generated program, checks that dynamic objects are those in scope and that every live object's construct is active, and prints every event with the live objects; the program compiled by slimcc is linked with a checking runtime that is given that trace: alignment, disjointness, contents, addresses, position above the stack pointer and the stack depth per program point are compared at every event",
               "randomly generated functions of up to about 50 nodes, 60 events each, at -O0 and -O1; 3 000 functions quick, 40 000 thorough")
TECH["P15"] = ("Scopes.tla: the stack of scopes with a map per name space (ordinary identifiers, tags) as a machine over the declaration, definition, scope and use events of a translation unit in source order; TLC answers every event (which declaration a name denotes, whether a declaration is allowed, whether a tag's type is complete and which definition completes it) and checks that the stack is balanced, that types are incomplete inside their definitions and that no tag is in two scopes; the units are then written out so that every use checks its answer (distinct sizes and values in static assertions and at run time, cast/multiplication and declaration/expression ambiguities included), compiled with slimcc and run",
               "randomly generated units of up to about 100 events over 4 names (files, functions, parameters, prototypes, blocks, if/for/while/do/switch with and without braces, statement expressions, labels, members, tags and enumerators declared inside expressions, self-referential and forward declarations, block-scope extern and static); 2 500 units quick, 40 000 thorough; labels and members checked by construction")
TECH["P20"] = ("Types.tla: a machine that reads the tokens of every declarator from its identifier outwards (right over suffixes, left over asterisks, out of parentheses), builds the type with parameter adjustment and qualified array types, and then grows a pool of expressions by applying operators (addressing, dereference, subscripts, members, calls, arithmetic, conditional, comma, assignment, casts, typeof, generic selection, statement expressions) to operands to which C lets them apply; TLC checks that parentheses match, that only well-formed types arise and that rvalues are unqualified, and gives every type, its compatibility with the other declared types, and the composite types; the declarations and expressions are written out with static assertions (_Generic on addresses and values against the type written as a type name and as a chain of typedefs, __builtin_types_compatible_p, sizeof) and compiled by slimcc",
               "randomly generated units of about 15 declarations of up to 5 nested derivations with nested parameter lists, near-miss twins, 2 structures and up to 60 expressions over them, in C17 and C23 modes; 1 500 units quick (about 110 000 assertions), 25 000 thorough; variable-length arrays, _Atomic and bit-field-typed expressions are not typed here")
