#!/usr/bin/env python3
# Regenerates properties.jsonl (the single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(obs), hook_needed=hook)))

p('P01', 'Compiled expressions have the value C gives them',
  'For every well-defined expression built from decimal, octal, hexadecimal and character literals, variables, array elements, parentheses, casts to int and the unary, arithmetic, bitwise, relational, logical, conditional, increment/decrement and (compound) assignment operators, the program produced by the shell backend and by the native backends computes the value, and performs the assignments, that C prescribes. This does not depend on how operators are nested or parenthesised, on whether the value is used as a number, an argument, an index or a condition, or on which supported shell runs the script.',
  ['programs', 'inputs', 'configurations'],
  'all expression trees over the supported operators, with all operand values whose C result is defined in 32-bit int, in every use context, for the shell and x86 backends',
  'The suites evaluate a few dozen fixed expressions; precedence and parenthesisation mistakes only show for particular pairs of operators, shapes and operand values, and the compiler does not use all operators itself.',
  ['sh.c', 'exe.c', 'x86.c', 'pnut.c'],
  [('parenthesisation heuristics of shell arithmetic', 'sh.c: wrap_if_needed, comp_rvalue_go, comp_lvalue'), ('precedence climbing parser', 'pnut.c: parse_*_expression'), ('stack machine code generation', 'exe.c: codegen_rvalue, codegen_binop; x86.c')],
  obs=['output of the compiled program under each shell / natively'])
p('P02', 'Calls in expressions happen when, and only when, C says so',
  'In every expression or condition containing function calls, each call is performed exactly as many times as C prescribes: operands of &&, || and conditions that C skips are never evaluated, those it evaluates are evaluated once per evaluation of the condition (again on every loop iteration), arguments are evaluated before their call, and the value of each call is the one used where it appears. A program whose calls cannot be arranged that way is refused at compile time instead of being miscompiled.',
  ['programs', 'configurations'],
  'all expressions combining calls, nested calls, logical operators, negation and side effects, in statements, arguments, assignments, returns and if/else-if/while/do/for conditions',
  'The shell backend hoists calls out of expressions; the tests hold about ten hoisting shapes, while mistakes appear for particular nestings of calls under logical operators.',
  ['sh.c', 'exe.c'],
  [('side-effect hoisting', 'sh.c: handle_side_effects_go, handle_fun_call_side_effect, with_prefixed_side_effects, comp_rvalue'), ('short-circuit jumps', 'exe.c: codegen_rvalue for && || ?:')],
  obs=['trace of calls printed by the compiled program'])
p('P03', 'Loops, branches, break, continue and return follow C control flow',
  'For every program built from if/else chains, while, do-while and for loops (with any of their clauses missing), break, continue and return nested in any way the backends accept, the compiled program executes the same sequence of statements as C, and no reachable statement is dropped or repeated.',
  ['programs', 'configurations'],
  'all nestings of the structured control statements, with break/continue/return at any position, in functions called from other functions',
  'Tests cover one or two nestings of each; loop ends are replayed at each continue, and returns in tail position become breaks out of several loops, so mistakes need specific nestings.',
  ['sh.c', 'exe.c'],
  [('loop and tail-position return compilation', 'sh.c: comp_loop, comp_break, comp_continue, comp_return, comp_if, comp_body'), ('jump label management and stack adjustment', 'exe.c: codegen_statement, codegen_body')],
  obs=['trace of statements printed by the compiled program'])
p('P04', 'switch selects exactly the cases C selects',
  'For every switch statement the backends accept, the statements of the first matching case (constant, character, enumerator or negative label, several labels sharing a body) are executed, or those of default wherever it is placed, or none; execution then continues where C continues, including fallthrough, break, continue and return out of a case in backends that accept them.',
  ['programs', 'inputs', 'configurations'],
  'all switch shapes (label sets, grouping, position of default, nesting in loops and other switches) and all values of the controlling expression',
  'Only a handful of fixed switches and values are tested; label grouping, default placement and break/continue inside nested switches interact.',
  ['sh.c', 'exe.c'],
  [('case patterns', 'sh.c: comp_switch, make_switch_pattern'), ('jump chain of cases', 'exe.c: codegen_statement for switch/case/default')],
  obs=['trace printed by the compiled program'])
p('P05', 'Each function activation has its own parameters and locals',
  'A call binds each parameter to its argument and returns the value of the executed return statement; parameters and local variables of an activation are unaffected by any other activation, including recursive, mutually recursive and nested ones, while global variables and memory are shared. Choosing other (valid) names for functions, parameters, locals and globals, or having many of them, never changes the behaviour.',
  ['programs', 'inputs', 'configurations'],
  'all call graphs and recursion depths, any number of parameters and locals, any identifiers accepted by the compiler, parameters modified or not, for both local-variable saving schemes',
  'Shell functions have only global variables, so privacy of locals is emulated; tests use short names, few parameters and a few recursion shapes.',
  ['sh.c', 'exe.c', 'env.c', 'sh-runtime.c'],
  [('save/restore of locals around calls', 'sh.c: save_local_vars, restore_local_vars, comp_glo_fun_decl; sh-runtime.c: local_vars (let/endlet)'), ('mutability analysis of parameters', 'sh.c: mark_mutable_variables_*'), ('stack frame offsets', 'exe.c: cgc_fs, codegen_call, codegen_param(s)')],
  obs=['output of the compiled program'])
p('P06', 'Conditional inclusion keeps exactly the groups C keeps',
  'For every balanced nesting of #if, #ifdef, #ifndef, #elif, #else and #endif up to the documented depth, the compiled program contains exactly the text of the groups that C selects: at most one group of each conditional, none inside a skipped group, and directives in skipped groups (including #define, #undef, #include, #error and conditions that cannot be evaluated) have no effect.',
  ['programs', 'configurations'],
  'all sequences and nestings of conditional directives and definitions',
  'Two small test files cover a few nestings; the mask/executed stack has many states that only show under particular sequences.',
  ['pnut.c'],
  [('if-mask stack', 'pnut.c: push_if_macro_mask, pop_if_macro_mask, prev_macro_mask, handle_preprocessor_directive, evaluate_if_condition, get_tok')],
  obs=['which markers the compiled program contains'])
p('P07', 'Macro expansion yields the token sequence C prescribes',
  'For every set of object-like and function-like macro definitions, redefinitions and #undefs, every use of a macro in the text expands to the token sequence of the C preprocessor: arguments are collected with balanced parentheses and fully expanded before substitution except under # and ##, results are rescanned, a macro is not expanded again while it is being replaced, and a function-like name not followed by a parenthesis is left alone.',
  ['programs'],
  'all macro tables and invocation texts (nesting, empty arguments, several lines, arguments that are themselves invocations), outside the limitations recorded in tests/_bug',
  'The tests expand a few dozen macros; argument pre-expansion, rescanning and the replay stack interact in ways fixed examples cannot enumerate.',
  ['pnut.c'],
  [('macro replay stack and argument collection', 'pnut.c: expand_macro, expand_macro_arg, get_macro_args_toks, begin_macro_expansion, return_to_parent_macro, get_tok'), ('# and ##', 'pnut.c: stringify, paste_tokens')],
  obs=['token stream after preprocessing (DEBUG_CPP build)'])
p('P08', '#include splices files, restores position, and locations stay true',
  'For every tree of included files, #include behaves as if the text of the file (found relative to the directory of the including file) replaced the directive, with the rest of the includer read afterwards unchanged, however the files end. At every point, __FILE__ and __LINE__, and the file and line named by a compile-time error message, denote the file and line of the source text being compiled.',
  ['programs', 'inputs'],
  'all include trees, repeated inclusions, directory layouts, files with or without final newline, blank and comment lines, and error positions',
  'The include tests use one fixed tree and no test checks reported locations.',
  ['pnut.c'],
  [('include stack', 'pnut.c: include_file, restore_include_context, get_ch, handle_include, include_stack'), ('location reporting', 'pnut.c: syntax_error, fatal_error, line_number, __LINE__/__FILE__ builtins')],
  obs=['order of markers in the compiled program', 'values of __LINE__ and __FILE__', 'error message of the release build'])
p('P09', 'Constant expressions evaluate as in C',
  'Every integer constant expression used as an enumerator value, a #if or #elif condition, an array size or a case label is given the value that C gives it, and enumerators without explicit value follow their predecessor by one.',
  ['programs', 'configurations'],
  'all constant expressions over the supported operators, including defined and undefined identifiers in #if, and all enumerator lists',
  'Tests use a few simple constant expressions, and constant evaluation is separate from code generation, so run-time tests do not reach it.',
  ['pnut.c', 'sh.c', 'exe.c'],
  [('constant folding', 'pnut.c: eval_constant, parse_enum'), ('uses', 'pnut.c: parse_array/declarator; sh.c/exe.c: enum and case handling')],
  obs=['enumerator values and selected groups printed by the compiled program'])
p('P10', 'String and character literals denote exactly their bytes',
  'Every string or character literal, whatever printable, escaped, shell-special or non-ASCII bytes it contains and whatever its length, yields in the compiled program exactly the bytes C prescribes followed by a terminating zero, whether it is indexed, passed, compared, used as an initializer or written out; adjacent literals are concatenated, and two different literals are never confused.',
  ['inputs', 'programs', 'configurations'],
  'all byte sequences and all escape sequences in literals, of any length, in every use and backend',
  'Tests print a fixed table of characters; escaping goes through three layers (C, the pool, double-quoted shell strings) and fails only for particular bytes, adjacencies and lengths.',
  ['pnut.c', 'sh.c', 'sh-runtime.c', 'exe.c'],
  [('literal scanning', 'pnut.c: get_string_char, get_string'), ('emission as shell strings', 'sh.c: escape_text, print_escaped_text, comp_defstr'), ('unpacking at run time', 'sh-runtime.c: unpack_escaped_string, unpack_string, char_to_int'), ('data emission', 'exe.c: codegen_string')],
  obs=['bytes of the literal printed as numbers and written with putchar'])
p('P11', 'getchar delivers the bytes of standard input in order, then EOF',
  'For every input without zero bytes, successive calls to getchar in the compiled program return exactly the bytes of standard input, once each and in order, including blank lines, spaces, backslashes, non-ASCII bytes, very long lines and a last line without newline, and then return -1.',
  ['inputs', 'histories', 'configurations'],
  'all input byte sequences and all interleavings of getchar with other library calls',
  'Tests feed a few files; the shell runtime reads lines and splits them in blocks, so errors depend on line lengths and on how lines end.',
  ['sh-runtime.c', 'exe.c'],
  [('line-buffered getchar', 'sh-runtime.c: _getchar, extract_line_head, char_to_int'), ('native getchar', 'exe.c/x86.c: rt_fgetc / getchar')],
  state=[('__stdin_buf, __stdin_line_ending, __stdin_end', 'rest of the current line and what ends it', 'sh-runtime.c')],
  obs=['values returned by getchar'])
p('P12', 'File operations act on the right file at the right position',
  'For every sequence of open, read, write, close, fopen, fgetc and fclose calls, in the modes the runtime supports, each descriptor has its own position and contents: reads return the bytes of its file from its position (0 or -1 at the end), writes append the bytes to its file, opening returns a descriptor no other open file uses (-1 or NULL for a file that does not exist), and closing one never disturbs the others.',
  ['histories', 'inputs', 'configurations'],
  'all interleavings of operations on several descriptors, files and buffer sizes, lines longer than the initial buffer, with and without final newline',
  'Tests read one or a few files to the end in a fixed order; per-descriptor buffering makes errors depend on interleavings and line lengths.',
  ['sh-runtime.c', 'exe.c'],
  [('descriptor table and per-descriptor line buffers', 'sh-runtime.c: _open, _close, read_byte, refill_buffer, unpack_line, _read, _write, _fopen, _fclose, _fgetc'), ('system call wrappers', 'exe.c: rt_fopen, rt_fgetc, rt_close; x86.c: os_*')],
  state=[('__state_fdN, __buffer_fdN, __cursor_fdN, __buflen_fdN', 'state of descriptor N', 'sh-runtime.c')],
  obs=['results of the calls and contents of the files'])
p('P13', 'Memory objects are disjoint and keep what was stored in them',
  'For every sequence of allocations, frees, and stores and loads through pointers, arrays and structure members, a load returns the last value stored in that element or member: live objects never overlap, a store to one never changes another, and freeing an object leaves all others intact; pointer addition, subtraction, comparison and increment move by whole elements.',
  ['histories', 'programs', 'configurations'],
  'all interleavings of malloc, free and accesses, all object sizes, element and member positions, linked structures, for the shell memory model and the native backends',
  'Tests allocate a few objects in fixed order; overlap and stale data need particular sizes and interleavings with strings and buffers.',
  ['sh-runtime.c', 'sh.c', 'exe.c'],
  [('memory as numbered variables, bump allocation', 'sh-runtime.c: _malloc, _free, defarr, defstr, initialize'), ('address arithmetic', 'sh.c: comp_lvalue, comp_rvalue_go, struct_member_var; exe.c: codegen_lvalue, codegen_binop, mul_for_pointer_arith, rt_malloc')],
  obs=['loaded values printed by the compiled program'])
p('P14', 'printf formats each conversion as C does',
  'In scripts produced by the shell backend, printf writes for every supported format string and matching arguments exactly the characters C prescribes: ordinary characters verbatim, and %d %i %u %o %x %X %c %s %% with any combination of the supported flags, width and precision (constant or *), whether the format is a literal or computed at run time; unsupported formats are refused.',
  ['inputs', 'programs', 'configurations'],
  'all format strings over the supported conversions, flags, widths and precisions, and all arguments',
  'Two test files cover some combinations; literal formats are split at compile time and run-time formats interpreted by another implementation, and each combination takes its own path.',
  ['sh.c', 'sh-runtime.c'],
  [('compile-time splitting of the format', 'sh.c: handle_printf_call, printf_call'), ('run-time interpretation', 'sh-runtime.c: _printf, pad, read_int, _put_pstr')],
  obs=['bytes written'])
p('P15', 'Native data layout: every object and member has its own bytes',
  'In programs produced by the native backends, each member of a (nested, anonymous, array-containing) structure, each array element and each local, static or global variable designates storage of its own, union members share theirs, sizeof and member placement follow the C alignment rules, structure assignment copies all of it, and an initializer (complete, partial or nested) gives each member or element its C value with the rest zero, static and global ones once at program start.',
  ['programs', 'configurations'],
  'all type definitions over char, short, int, pointers, arrays, structures and unions; all initializers and access orders; local, static and global storage',
  'Tests contain a few fixed structures whose members mostly have equal sizes; overlap and misplacement need particular member sequences and nestings.',
  ['exe.c', 'pnut.c'],
  [('size, alignment and offset computation', 'exe.c: type_width, struct_union_size, struct_member_offset, align_to'), ('initializers and copies', 'exe.c: codegen_initializer, codegen_initializer_string, initialize_memory, copy_obj'), ('storage allocation', 'exe.c: codegen_local_var_decl, codegen_static_local_var_decl, codegen_glo_var_decl')],
  obs=['member values, sizeof and address differences printed by the compiled program'])
p('P16', 'Native integer objects have their declared width and signedness',
  'In programs produced by the native backends, an object of type signed or unsigned char, short or int holds the stored value reduced to its width and reads back sign- or zero-extended, casts convert likewise, and 32-bit signed and unsigned arithmetic, comparison, division and shifts on int and unsigned int variables give the results C gives.',
  ['inputs', 'programs', 'configurations'],
  'all values and pairs of integer types, in variables, array elements, structure members, through pointers, and in casts',
  'Tests use small positive values; width and sign mistakes only show near the limits of each type and for particular access paths.',
  ['exe.c', 'x86.c'],
  [('width-specific loads and stores', 'exe.c: load_mem_location, write_mem_location, CAST in codegen_rvalue; x86.c: mov_mem8/16/32_reg, mov_reg_mem*_sign_ext'), ('signed and unsigned instructions', 'exe.c: codegen_binop; x86.c')],
  obs=['values printed by the compiled program'])
p('P17', 'goto reaches its label with all variables intact (native backends)',
  'In programs produced by the native backends, executing goto, forwards or backwards, into or out of blocks, loops and switch statements of the same function, continues at the statement following the label; variables keep their values, and neither the number of jumps taken nor the variables declared between the goto and the label disturb later accesses, calls or returns.',
  ['programs', 'configurations'],
  'all placements of labels and gotos relative to blocks, declarations, loops and switches',
  'One fixed test file; the stack adjustment emitted for each goto depends on the declarations between both ends.',
  ['exe.c'],
  [('label bindings and goto fixups with stack adjustment', 'exe.c: goto and label cases of codegen_statement, jump_to_goto_label, def_goto_label')],
  obs=['trace printed by the compiled program'])
p('P18', 'Unsupported constructs are refused, never silently miscompiled',
  'A program using a construct that a backend documents as unsupported, or that breaks a rule the compiler enforces (break or continue outside a loop, switch fallthrough, early exit from a case or goto in shell, address of a local, aggregate locals or parameters in shell, shadowed or reserved names, conditional calls used as values, too long initializers, bad literals or directives), makes the compiler exit with a nonzero status and a message, in every context where the construct may be nested; the same program without the construct is accepted.',
  ['programs', 'configurations'],
  'all contexts (nesting of loops, switches, branches, functions) in which each unsupported construct can appear',
  'The negative tests place each construct in one context only.',
  ['sh.c', 'pnut.c', 'exe.c', 'env.c'],
  [('checks before and during code generation', 'sh.c: fatal_error calls in comp_*, assert_*; pnut.c: syntax_error; exe.c: fatal_error')],
  obs=['exit status and message of the compiler'])
p('P19', 'The compiler is a fixpoint: every generation compiles identically',
  'The output of the compiler depends only on its source, its build options and its input: compilers obtained by compiling the same compiler source with the host C compiler, with the native backends, or with the shell backend produce byte-identical output for every input program, and repeated compilations give identical output.',
  ['programs', 'configurations'],
  'all input programs, all build chains between the host compiler, the native backends and the shell backend, and repeated runs',
  'The bootstrap scripts compare one input (the compiler itself); constructs the compiler source does not use are never compared.',
  ['pnut.c', 'sh.c', 'exe.c', 'x86.c', 'elf.c', 'sh-runtime.c'],
  [('self-compilable subset, no dependence on host behaviour', 'pnut.c: main, alloc_obj, hash tables; exe.c: generate_exe; sh.c: codegen_end')],
  obs=['output of each generation of the compiler'])
p('P20', 'Layout and comments never change the meaning of a program',
  'Replacing white space between tokens by any other white space, newlines or comments, inserting them between any two tokens, splitting a directive with backslash-newline, or writing adjacent operators without spaces when C tokenizes them the same way, leaves the behaviour of the compiled program unchanged; characters are always grouped into the longest possible token.',
  ['programs', 'configurations'],
  'all token sequences and all layouts of them',
  'Tests are written in one conventional layout.',
  ['pnut.c'],
  [('tokenizer', 'pnut.c: get_tok, get_ch, skip_newlines handling, comments, accum_digit, get_ident')],
  obs=['token stream after preprocessing and behaviour of the compiled program'])
p('P21', 'Arguments, environment and exit status pass through unchanged',
  'The main function of the compiled program receives exactly the argument strings given on the command line, whatever bytes they contain, and their number; the exit status is the value returned by main or given to exit reduced to 8 bits, exit ends the program immediately at any call depth with all earlier output written, and the program behaves the same whatever variables are exported in its environment.',
  ['inputs', 'programs', 'configurations'],
  'all argument vectors, all exit points and values, and all environments whose variable names may coincide with names of the program',
  'Tests pass no or two plain arguments, always exit with 0 and run in one environment.',
  ['sh.c', 'sh-runtime.c', 'exe.c', 'x86.c'],
  [('argument conversion and epilogue of the script', 'sh.c: codegen_end; sh-runtime.c: make_argv, unpack_string, _exit'), ('process entry', 'exe.c: codegen_end, setup_proc_args, os_exit')],
  obs=['output and exit status of the compiled program'])
p('P22', 'Build options of the compiler never change program behaviour',
  'All variants of the compiler (shell backend with either scheme for saving locals, with or without compact runtime, long-line optimisation, inlined characters or comments carrying the C source, safe mode; native backends for both word sizes) produce programs with the same observable behaviour for every program they accept, in every supported shell.',
  ['programs', 'configurations'],
  'all combinations of documented build options, all supported shells, and all programs in the common subset',
  'The suites run each program in at most two option sets; some options (long lines, compact runtime, inlined code) are never run by the tests on most programs.',
  ['sh.c', 'sh-runtime.c', 'exe.c', 'pnut.c'],
  [('conditional compilation of code generation and runtime', 'sh.c, sh-runtime.c, pnut.c: #ifdef SH_*, RT_*, OPTIMIZE_*')],
  obs=['output of the compiled program for each variant'])
p('P23', 'Compilation ends with a program or a diagnosis on every input',
  'For every input text, well formed or not, the compiler ends: either it writes a complete program (a script that shells can parse, an executable whose headers describe its contents) and exits with status 0, or it exits with status 1 after a diagnostic. It never crashes, never runs forever, and never reads or writes outside of its tables and syntax tree; an input that needs more than the capacity of a table is refused, as is every larger one.',
  ['inputs', 'programs', 'configurations'],
  'all byte sequences as source text, of any size, for every backend',
  'Tests contain well-formed programs and a few handwritten errors; an access outside of a table has no visible effect in most builds.',
  ['pnut.c', 'sh.c', 'exe.c', 'x86.c', 'elf.c'],
  [('parser, preprocessor and error paths', 'pnut.c: get_tok, handle_preprocessor_directive, eval_constant, paste_tokens, parse_*'), ('tables and their limits', 'pnut.c: alloc_obj, accum_string_char, push_if_macro_mask, begin_macro_expansion; sh.c: append_glo_decl, wrap_*; exe.c: emit_i8, add_label')],
  obs=['exit status, output and memory accesses of the compiler'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P), max(len(x['title']) for x in P))
