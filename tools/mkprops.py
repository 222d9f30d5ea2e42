"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          "observe_at": observe, "hook_needed": None}})


prop("P01", "Macro invocations expand as the C standard prescribes",
     "For every set of object-like and function-like macros (with #, ##, variadic parameters, __VA_OPT__, empty arguments and mutually recursive names) and every text that invokes them, preprocessing yields exactly the token sequence ISO C macro replacement defines, and the printed output separates those tokens so that reading it back gives the same tokens. An invocation that breaks a constraint (wrong number of arguments, unterminated argument list, ## that does not form a token) is diagnosed with a failing exit status.",
     ["inputs", "programs"], "every finite set of macro definitions and every token sequence using them",
     "The tests expand a few dozen hand-written macros; the interplay of rescanning, recursion blocking, placemarkers and argument pre-expansion is unbounded.",
     ["preprocess.c", "main.c"],
     [("substitution", "preprocess.c: subst, paste, stringize, expand_arg"), ("recursion blocking", "preprocess.c: push_macro_lock, pop_macro_lock, expand_macro, prepare_funclike_args"), ("printing", "main.c: print_tokens")],
     ["stdout and exit status of slimcc -E"],
     [("locked macros", "macros being replaced, until their stop token", "preprocess.c: locked_macros")])

prop("P02", "Conditional groups: exactly the selected group of each #if is processed",
     "For every nesting and sequence of #if, #ifdef, #ifndef, #elif, #elifdef, #elifndef, #else and #endif lines, exactly the lines of the first group whose condition holds (or of #else if none does) take effect, including definitions made there, and nothing in skipped groups has any effect, even directives that would be invalid; a controlling expression that is never reached is not evaluated. Ill-nested or unterminated conditionals are diagnosed with a failing exit status, and a header protected by an include guard or #pragma once contributes its text the same number of times as if the compiler had no shortcut for such headers.",
     ["inputs", "programs"], "every sequence of conditional directives, definitions and inclusions",
     "A test fixes a handful of nestings; the property is about every interleaving of directives, conditions and macro state.",
     ["preprocess.c"],
     [("conditional stack", "preprocess.c: push_cond_incl, get_cond_incl, skip_cond_incl, directives"), ("guard shortcut", "preprocess.c: include_file, is_incl_guard")],
     ["stdout and exit status of slimcc -E"],
     [("conditional stack", "context and already-taken flag of each open #if", "preprocess.c: cond_incl")])

prop("P03", "The macro table is a faithful map under any history of #define and #undef",
     "After any sequence of definitions, redefinitions and removals of macros, in the source or with -D and -U, every name is defined exactly if its last operation defined it and then expands to its last definition, whatever names were used and however many entries came and went.",
     ["histories"], "every history of define, redefine, undefine and lookup operations over any set of names, including names that collide in the table",
     "The built-in hash-table self-test runs one fixed history; probing, tombstones and rehashing depend on the whole history and on name collisions.",
     ["hashmap.c", "preprocess.c"],
     [("open addressing with tombstones", "hashmap.c: get_entry, get_or_insert_entry, rehash, hashmap_delete2"), ("use", "preprocess.c: define_macro, undef_macro, directives")],
     ["stdout of slimcc -E"],
     [("buckets", "open-addressing table with tombstones", "hashmap.c: HashMap")])

prop("P04", "Every inclusion finds the file the documented search order names",
     "For every arrangement of files in the including file's directory, the -I, -isystem and -idirafter directories, and every sequence of #include \"\", #include <>, #include_next, __has_include and -include, each directive reads the first matching file in search order (for #include_next, after the directory where the current file was found), and asking with __has_include never changes what later directives read. The dependency output (-M, -MM, -MD, -MMD) names exactly the main file and the headers that were read (-MM, -MMD: except system headers and what they include), in make's quoting, and -MP adds a phony target for each of them but the main file.",
     ["configurations", "inputs", "histories"], "every directory arrangement, option order and sequence of inclusion directives",
     "Tests cover one or two directories and one directive at a time; lookups are cached, so the answer can depend on the history of earlier lookups.",
     ["preprocess.c", "main.c", "tokenize.c"],
     [("search", "preprocess.c: search_include_paths*, search_include_next"), ("path assembly", "main.c: -I/-isystem/-idirafter handling"), ("dependency output", "main.c: print_dependencies")],
     ["stdout of slimcc -E, dependency files"],
     [("search cache", "remembered lookups", "preprocess.c: search_include_paths3 cache")])

prop("P05", "__LINE__, __FILE__, __COUNTER__ and #line report the true presumed location",
     "At every place of every translation unit, __LINE__, __FILE__ and __COUNTER__ (also inside macro arguments, conditional expressions and included files, after line splices and comments, and after #line or GNU line markers) give the presumed line and file that the directives and inclusions up to that place determine, and leaving an included file restores the includer's numbering. With -g, the line table attributes every statement to its presumed file and line. (In a continued line, and for the body of an invocation that spans lines, any of the physical lines is right.)",
     ["inputs", "histories"], "every sequence of lines, splices, comments, #line directives, line markers and (repeated) inclusions",
     "test/line.c checks a handful of lines in one file; the location is a function of the whole prefix of the translation unit.",
     ["tokenize.c", "preprocess.c"],
     [("line counting", "tokenize.c: add_line_numbers, remove_backslash_newline"), ("line directives", "preprocess.c: read_line_marker, line_macro, file_macro, counter_macro")],
     ["stdout of slimcc -E"],
     [("line delta / display file", "presumed location of a file", "slimcc.h: File")])

prop("P06", "Character and string literals denote exactly the encoded code units",
     "Every character constant and string literal (no prefix, u8 for strings, u, U, L; simple, octal and hex escapes and, with -fenable-universal-char, universal character names; UTF-8 source characters of one to four bytes; adjacent literals concatenated across prefixes; arrays shorter or longer than the literal) denotes exactly the sequence of code units the standard prescribes, with the right element type and array size. Number literals have the value (rounded once, to nearest) and the type selected by their spelling and suffix, and malformed number literals are diagnosed.",
     ["inputs"], "every literal spelling and every concatenation of literals",
     "Tests list individual literals; escapes, encodings, prefixes and concatenation combine without bound.",
     ["tokenize.c", "unicode.c", "preprocess.c", "strings.c"],
     [("escapes and transcoding", "tokenize.c: read_escaped_char, read_string_literal, read_utf16_string_literal, read_utf32_string_literal"), ("concatenation", "preprocess.c: join_adjacent_string_literals"), ("UTF-8", "unicode.c: encode_utf8, decode_utf8"), ("numbers", "tokenize.c: convert_pp_number")],
     ["data and behaviour of compiled programs"])

prop("P07", "Every driver run ends with the right outputs, exit status and no debris",
     "For every mix of inputs (C, preprocessed, assembly, objects), mode (-E, -S, -c, link), -o, and every failure of a compilation, of the assembler or of the linker, the exit status is zero exactly if every step succeeded, exactly the requested outputs are produced from exactly the right inputs in command-line order, a failed compilation does not leave a new output, and no temporary file is left behind.",
     ["configurations", "fault_sequences"], "every command line over the documented modes and inputs, with a fault injected at any sub-step",
     "The driver script tries each option once with every step succeeding; failures at particular steps of multi-input runs are never exercised.",
     ["main.c"],
     [("phases", "main.c: main, run_subprocess, cc1, assemble, run_linker"), ("clean-up", "main.c: cleanup, create_tmpfile")],
     ["exit status, files on disk, commands run"])

prop("P08", "Deferred actions and cleanups run exactly once, in reverse order, on every exit",
     "For every function built from blocks, if, loops, switch, labels, goto, break, continue (also labelled), return, statement expressions, defer statements and cleanup attributes, execution follows the control flow of the C semantics, and leaving a scope by any route runs exactly the deferred actions and cleanups that were reached in it, each once, in reverse order of being reached, after the return value has been computed. A jump into the scope of a defer statement or out of a deferred statement is rejected.",
     ["programs"], "every well-formed nesting of control statements and every path through it",
     "Tests exercise selected nestings; the number of (exit route, set of pending actions) pairs grows with every construct.",
     ["parse.c", "codegen.c"],
     [("pending actions", "parse.c: current_defr, defr_start/defr_end, loop_body, jump resolution"), ("emission", "codegen.c: gen_defr, gen_stmt")],
     ["trace printed by compiled programs; exit status of slimcc for illegal jumps"],
     [("current_defr", "list of actions pending at a program point", "parse.c")])

prop("P09", "switch transfers control to the one matching case",
     "For every controlling type and value and every set of case labels and GNU case ranges (negative, extreme, adjacent, one-element, spanning the whole type, in any order, with or without default, nested in loops and inner switches), control goes to the label whose value or range contains the promoted, converted controlling value, else to default, else past the switch; duplicate or overlapping labels are rejected.",
     ["programs", "inputs"], "every set of labels and every controlling value and type",
     "Tests switch on a few small ints; range merging and comparison selection depend on signedness, width and the relation between all labels.",
     ["parse.c", "codegen.c"],
     [("label collection", "parse.c: label_stmt / case handling"), ("dispatch", "codegen.c: gen_stmt ND_SWITCH, imm_cmp, imm_sub")],
     ["behaviour of compiled programs; exit status of slimcc"])

prop("P10", "Initializers set every subobject to its last designated value, the rest to zero",
     "For every object type built from scalars, arrays, structs, unions, bit-fields and unnamed members, and every initializer (designators of any depth, GNU range designators, brace elision, string literals, overriding, trailing members omitted, arrays of unknown size, compound literals), each subobject holds the value of the last initializer that designates it and all others are zero, equally for static, thread-local, automatic and compound-literal objects, and arrays of unknown size get the size implied. (Where an aggregate is initialized again as a whole after parts of it were given, the fate of the parts not named again is left open, as compilers differ.)",
     ["programs", "inputs"], "every type shape and every initializer list over it",
     "The tests check single shapes; the walk of the current object through nested aggregates is determined by the whole list.",
     ["parse.c", "codegen.c"],
     [("initializer walk", "parse.c: initializer2, array_initializer, struct_initializer, union_initializer, designation"), ("static data", "parse.c: write_gvar_data; codegen.c: emit_data"), ("automatic", "parse.c: create_lvar_init; codegen.c: ND_INIT_AGG")],
     ["memory contents seen by compiled programs"])

prop("P11", "Struct, union and bit-field layout and access follow the platform ABI",
     "For every struct and union (members of any scalar, array or nested type, bit-fields of every width and base type, zero-width and unnamed bit-fields, packed and aligned attributes), sizes, alignments and offsets equal those of the x86-64 System V ABI; storing to a member changes exactly that member's bits, and reading it back, including through compound assignment and increment, yields the stored value converted to its width and signedness.",
     ["programs", "inputs"], "every member list and every history of member stores and loads",
     "Tests fix a few structs; layout is a function of the full member list and stores must be checked against all neighbours.",
     ["parse.c", "type.c", "codegen.c"],
     [("layout", "parse.c: struct_decl, union_decl, struct_members"), ("bit-field access", "codegen.c: gen_bitfield_load, gen_bitfield_store")],
     ["memory contents and sizes seen by compiled programs"])

prop("P12", "Integer expressions have one value: run time, folded, in #if, at -O0 and -O1",
     "For every expression over the integer types (all widths, both signednesses, _Bool, bit-fields excluded) built from the arithmetic, shift, bitwise, comparison, logical, conditional and cast operators with defined behaviour, the value equals two's-complement modular arithmetic in the types the usual conversions select, and is the same whether evaluated at run time, as a constant expression, with constant operands mixed in, or with optimization on or off; in #if the same holds with all operands of width 64.",
     ["inputs", "programs"], "every operator tree, operand type assignment and operand value",
     "Tests sample operand values; folding, immediates and memory operands are separate code paths selected by type, value and optimization level.",
     ["parse.c", "codegen.c", "preprocess.c", "type.c"],
     [("folding", "parse.c: eval2, is_const_expr"), ("selection", "codegen.c: gen_expr2, gen_arith_opt_gp, imm_arith, divmod_opt, gen_cmp_opt_gp"), ("conversions", "type.c: usual_arith_conv, int_promotion"), ("#if", "preprocess.c: eval_const_expr")],
     ["values printed by compiled programs; stdout of slimcc -E"])

prop("P13", "Arithmetic conversions preserve every representable value",
     "Converting between any two arithmetic types (all integer types, _Bool, float, double, long double), explicitly, by assignment, by argument passing, by return or by the usual conversions, at run time or in constant expressions, yields the same value whenever the target can represent it, the modular value for integer targets, and the truncated value from floating to integer types.",
     ["inputs"], "every pair of types and every value for which the conversion is defined",
     "Tests convert a few small values; the 11x11 conversion table has boundary values for every pair.",
     ["codegen.c", "parse.c"],
     [("conversion table", "codegen.c: gen_cast, cast_table"), ("folding", "parse.c: eval2, eval_double")],
     ["values printed by compiled programs"])

prop("P21", "Floating-point expressions are rounded once per operation, equally when run and when folded",
     "Every expression over float, double and long double (mixed with integers) has the type the usual conversions give it, and each operation's result is the exact result rounded once to nearest-even in that type, with IEEE infinities, zeros and NaN behaviour; comparisons, negated comparisons, conditions, assignments, increments and logical uses decide accordingly; the value is the same evaluated at run time, folded as a constant, and at every optimization level.",
     ["inputs"], "every operator tree, operand value and operand form (variable or constant), at -O0 and -O1",
     "Tests use small exactly representable values; single rounding, ties, NaN-aware negation and register/stack saving depend on values and tree shape.",
     ["codegen.c", "parse.c"],
     [("run time", "codegen.c: gen_expr2 (floating cases), ND_POST_INCDEC, gen_bool_opt, flip_cmp, gen_cond, push_x87, pop_fp"), ("folding", "parse.c: eval_double, eval_fp_cast, eval2 comparisons"), ("types", "type.c: usual_arith_conv")],
     ["values printed by compiled programs"])

prop("P14", "Calls follow the platform calling convention in both directions",
     "For every function type (any number of scalar, floating, long double, struct and union parameters of any size, any return type, prototyped or variadic), a call passes every argument and returns every result unchanged whether caller and callee are compiled by this compiler or by the platform's compiler; va_arg, va_copy and va_start walk the variable arguments in order with exact values, also through copied and passed-on lists.",
     ["programs"], "every signature, argument value, caller/callee compiler pair and va_list operation sequence",
     "Tests call about thirty fixed signatures; register exhaustion, eightbyte classification and stack alignment depend on the whole parameter list.",
     ["codegen.c"],
     [("classification", "codegen.c: calling_convention, classify"), ("caller", "codegen.c: gen_funcall, gen_funcall_args, prepare_funcall, copy_ret_buffer"), ("callee", "codegen.c: emit_text, copy_struct_reg, copy_struct_mem"), ("variadic", "codegen.c: ND_VA_ARG, gen_vaarg_reg_copy")],
     ["values received by compiled programs linked with gcc-compiled code"])

prop("P15", "Every identifier denotes the innermost visible declaration of its name space",
     "In every arrangement of nested scopes (file, function parameters, blocks, for, statement expressions, struct bodies) declaring variables, typedefs, enumeration constants, functions, tags, labels and members, each use of a name denotes the declaration that C scope, name-space and point-of-declaration rules select, block-scope extern and static declarations denote the right object, and a forward declaration or definition of a tag in an inner scope declares a type of its own.",
     ["programs"], "every nesting of scopes and every placement of declarations and uses",
     "Tests contain a few shadowing examples; the resolution depends on the full nesting and order.",
     ["parse.c", "hashmap.c"],
     [("scopes", "parse.c: enter_scope, leave_scope, find_var, find_tag, push_scope"), ("declarations", "parse.c: declaration, global_declaration, func_prototype")],
     ["values and sizes checked at run time and in static assertions of compiled programs; exit status of slimcc"],
     [("scope stack", "maps of variables and tags per scope", "parse.c: scope")])

prop("P16", "Live objects never overlap and the stack neither leaks nor shrinks under them",
     "In every function with nested scopes, loops, gotos, variable-length arrays, alloca, over-aligned variables, large temporaries, calls with stack arguments and statement expressions, simultaneously live objects occupy disjoint, correctly aligned storage that keeps its contents until its lifetime ends, and leaving the scope of a variable-length array (by any route, any number of times) gives its storage back, so that loops run in bounded stack.",
     ["programs", "histories"], "every arrangement of object lifetimes and every path through them",
     "Tests place a few arrays; slot reuse and VLA deallocation depend on the nesting and on the path taken.",
     ["codegen.c", "parse.c"],
     [("slots", "codegen.c: assign_lvar_offsets, push_tmpstack, pop_tmpstack"), ("VLA deallocation", "codegen.c: gen_defr; parse.c: DF_VLA_DEALLOC"), ("alloca", "codegen.c: builtin_alloca")],
     ["addresses and contents seen by compiled programs"],
     [("temporary stack", "slots of pending temporaries", "codegen.c: tmp_stack")])

prop("P17", "Declarations of any history give exactly the symbols C linkage prescribes",
     "For every history of file-scope declarations and definitions of an identifier (extern, static, inline, tentative, initialized, thread-local, weak, alias, section, visibility, block-scope extern, used or unused, with -fcommon or not), the object file defines, references and binds exactly the symbols the standard and the attributes prescribe; unused static inline functions may be dropped but anything reachable from an emitted function or object is kept, and constructors and destructors run in priority order.",
     ["histories", "programs"], "every sequence of declarations of a few identifiers and every reference graph between functions",
     "Tests check single declarations; linkage is determined by the whole declaration history and reachability by the whole call graph.",
     ["parse.c", "codegen.c"],
     [("merging declarations", "parse.c: global_declaration, function definitions, scan_globals"), ("liveness", "parse.c: mark_live / is_referenced"), ("emission", "codegen.c: emit_symbol, emit_data, codegen")],
     ["symbol table of the object file; behaviour of the linked program"])

prop("P18", "Atomic operations are indivisible",
     "For every atomic type (all integer widths, _Bool, pointers, float and double) and operation (load, store, exchange, compare-exchange, fetch-and-modify, compound assignment, increment and decrement), whatever other threads or signal handlers do between any two instructions, each operation takes effect at one instant: no update is lost, each read-modify-write returns the value it replaced, and compare-exchange writes exactly if the expected value was current and otherwise reports the current one.",
     ["schedules"], "every interleaving of two or more threads' atomic operations at instruction granularity",
     "A test thread race hits an unlucky interleaving only by chance; single-threaded tests cannot see atomicity at all.",
     ["parse.c", "codegen.c", "include/stdatomic.h"],
     [("read-modify-write", "parse.c: to_assign / atomic_op compare-exchange loop"), ("instructions", "codegen.c: ND_CAS, ND_EXCH, store")],
     ["memory and results of compiled programs, single-stepped"])

prop("P19", "Expressions perform each side effect exactly once and keep pending values intact",
     "For every expression built from assignments, compound assignments, increments, calls, comma, conditional and short-circuit operators, member and array access, pointer arithmetic and statement expressions whose value does not depend on unspecified order, evaluation performs every side effect that C prescribes exactly once, never one it excludes (unselected operands, unevaluated operands), in the prescribed order, and no pending intermediate value is disturbed by evaluating other operands.",
     ["programs", "inputs"], "every expression tree and every operand value",
     "Tests evaluate small expressions; register spilling and addressing shortcuts depend on the depth and shape of the tree.",
     ["codegen.c", "parse.c"],
     [("temporaries", "codegen.c: push_tmpstack, pop_tmpstack, clobber_all_regs"), ("addressing shortcuts", "codegen.c: is_memop, gen_deref_opt, gen_member_opt, memop_arith"), ("branches", "codegen.c: gen_cond, gen_logical, gen_bool_opt")],
     ["trace and values printed by compiled programs"])

prop("P20", "Every declaration and expression has the type C prescribes",
     "Every declarator (any nesting of pointers, arrays, functions, parentheses and qualifiers, with typedef, typeof and tag types) declares the type its syntax prescribes, every expression has the type the conversion rules prescribe, two types are treated as compatible exactly if C says so, and sizeof, alignof, _Generic and pointer arithmetic agree with that type.",
     ["programs"], "every declarator and every pair of types up to any nesting depth",
     "Tests spell out some declarators; the type algebra is recursive.",
     ["parse.c", "type.c"],
     [("declarators", "parse.c: declarator2, type_suffix, func_params"), ("types", "type.c: is_compatible, add_type, usual_arith_conv"), ("selection", "parse.c: generic_selection")],
     ["values and selections printed by compiled programs; exit status of slimcc"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
