CM = 'TLC enumerates every behaviour of generated C programs on the TLA+ C machine (spec/CMachine.tla); each compiled program is replayed and must behave in one of these ways'
TR = ' Trusts gcc (which builds pnut), TLC, the shells and the CPU; bounded to the generated programs of the seed.'
PP = 'TLC runs the TLA+ preprocessor machine (spec/CPP.tla) on generated source trees; the token stream and the generated code of pnut must be those of a behaviour of the machine'
TV = 'Histories of library calls are recorded from compiled programs and TLC decides whether the TLA+ machine (spec/IO.tla) allows them (trace validation, spec/IOTrace.tla)'
TECH = {
'P01': (CM, 'All operator pairs in both shapes, unary/binary pairs, assignments and increments in value position, plus random trees; all six shells, five shell/native variants.' + TR),
'P02': (CM, 'All interleavings that C allows of the calls of generated expressions are enumerated by TLC; the implementation must realise one of them.' + TR),
'P03': (CM, 'Random nestings of the structured statements, all branch values.' + TR),
'P04': (CM, 'Random switch shapes run for every label, neighbour and other value.' + TR),
'P05': (CM, 'Call graphs with recursion; TLC also checks on the model that activations are private.' + TR),
'P17': (CM, 'Random label/goto placements in the native backends.' + TR),
'P06': (PP, 'All short sequences of conditional directives plus random nested ones; the outcome of each (text kept, refused, #error) is decided by TLC.' + TR),
'P07': (PP, 'Macro tables and invocation texts; TLC enumerates the hide-set choices that C leaves open, pnut must make one of them.' + TR),
'P08': (PP, 'Random include trees with search paths, guards and odd file endings; __LINE__/__FILE__, compiled code and the location in error messages.' + TR),
'P22': (CM, 'Generated programs compiled by every build variant and run by several shells; all must behave as the machine does.' + TR),
'P11': (TV, 'Every input of up to 4 bytes over a small alphabet, plus random inputs with lines of all the lengths at which buffers change, alone and interleaved with files.' + TR),
'P12': (TV + '; the short histories are generated by TLC (spec/IOGen.tla)', 'All histories of 4 operations plus random ones; reading, writing, appending, descriptors reused after closing.' + TR),
'P13': ('Histories of memory operations are recorded from compiled programs and TLC decides whether the TLA+ heap (spec/Heap.tla) allows them (trace validation, spec/HeapTrace.tla); short histories are generated by TLC (spec/HeapGen.tla)', 'Global and local arrays, malloc and free with reuse, struct members of every supported type, pointers into objects, strings and initialized arrays.' + TR),
'P14': ('TLC runs the TLA+ printf machine (spec/Printf.tla) on every single conversion (enumerated by spec/PrintfGen.tla) and on random formats; the compiled calls must write what the machine writes, or be refused where the machine allows it', 'All flags, widths, precisions (constant and *), conversions and argument forms, with the format known at compile time and not; six shells.' + TR),
'P10': ('TLC runs the TLA+ literal reader (spec/Literal.tla) on every source text of up to 4 characters over the characters that matter (enumerated by spec/LiteralGen.tla) and on random literals; compiled programs that use the literals must find these bytes', 'String literals in 20 kinds of context, adjacent literals, character constants in expressions, cases, enums and #if; native backends and all six shells.' + TR),
'P09': ('TLC runs the TLA+ machine of declarations and directives (spec/Const.tla) on generated enumerations, conditions, sizes, labels and initializers; compiled programs must show the values and selections of the machine', 'Every pair of operators in both shapes, unary with binary and conditional operators, literals of all bases, characters, macros, random trees; all backends.' + TR),
'P16': ('TLC runs the TLA+ machine of integer objects (spec/IntTypes.tla: values as limbs, promotions, the usual arithmetic conversions, stores of each width) on generated programs; the compiled programs must show the values of the machine', 'Every ordered pair of the six types up to int under every operator and assignment, with objects of ten kinds and values near the limits; casts, parameters, results, conditions; 64 bit types on x86-64.' + TR),
'P15': ('TLC runs the TLA+ machine of objects in memory (spec/Layout.tla: layout of structures, unions, arrays and pointers, stores, copies and initializers as cells) on generated declarations and statements; the compiled programs must show the same sizes, offsets and values', 'Every structure of up to three members over nine types, random nested types and programs, six native variants.' + TR),
'P20': ('TLC enumerates every short source text and runs the TLA+ lexer (spec/Lex.tla) on it, pnut must find the same tokens; programs rewritten with random layout are confirmed by the lexer to have the same tokens, and must behave as spec/CMachine.tla says', 'Texts of up to 4 characters (thorough: 5) over three alphabets; several hundred layouts per run.' + TR),
'P21': ('TLC runs the TLA+ machine of the process interface (spec/Process.tla: argument vector, environment, exit status) on generated programs and invocations; the compiled programs must show the arguments and end with the status of the machine', 'Argument vectors of any bytes, including those that shells treat specially, statuses over the int range from main and exit at every depth, hostile environment variables; six shells and the native backends.' + TR),
'P18': ('TLC enumerates every function of up to 4 operations (loops, branches, switches, labels, jumps, declarations) and runs the TLA+ machine of the rules (spec/Reject.tla) on them and on random programs with unsupported constructs; every backend must accept or refuse each as the machine says', 'About 150 constructs, in expression, statement, declaration and directive contexts, nested, in macros, included files and skipped groups; programs without them must be accepted. Where the machine says "may" (programs beyond the rules) only crashes are reported.' + TR),
'P19': ('TLC enumerates the chains of builds (spec/Chains.tla, with the fixpoint theorem on an abstract compiler); the history of builds and runs recorded from the compilers at their ends is validated by TLC against the machine that remembers one output per options and input (spec/Bootstrap.tla)', 'Chains of up to 3 builds from gcc and clang through the native and shell backends (thorough: 4, and shell compilers compiling pnut), 2650 inputs of 13 kinds each read by 4 or 5 compilers of the same options, 300 by compilers that are scripts.' + TR),
'P23': ('TLC enumerates every sequence of up to 3 tokens in ten kinds of places (spec/Tokens.tla); runs recorded from builds of the compiler that watch memory accesses and internal checks are validated by TLC against the session machine (spec/Session.tla), including histories of runs that bisect the capacity of each table', '126935 token sequences (quick: all shorter ones and a sample of 9000), edited programs, noise, and texts that fill 54 kinds of tables, on 8 builds with AddressSanitizer, UndefinedBehaviorSanitizer and SAFE_MODE.' + TR),
}
NA = {}
