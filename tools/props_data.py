TESTS = 'The 26 unit tests run a few dozen fixed programs and compare fixed outputs; '

prop('C01', 'Expressions evaluate to the value the language rules define',
     'Every arithmetic, comparison, bitwise, shift, logical, unary, conditional and cast expression, every implicit '
     'widening conversion and every compound assignment or increment yields the value and type defined by the '
     'operand types: two\'s-complement wrap-around, truncating division, sign- or zero-extension, IEEE arithmetic, '
     'and the operator precedence and associativity of the language. '
     'The value does not depend on where the operands live (local, parameter, ref parameter, field, array element).',
     ['programs', 'inputs'], 'for every well-typed expression over the built-in types and every operand value for which it is defined',
     TESTS + 'operators are tried on one or two small values of a few types; the table of operator x operand types has over 1400 entries and each is a separate instantiation.',
     ['modules/exec/commands.cpp', 'modules/compile/expression.cpp', 'modules/core/core.cpp', 'include/modules/core.h', 'modules/lang_cs/ast_builder.cpp'],
     [('binary/unary/convert runtime commands', 'modules/exec/commands.cpp'), ('expression compilation', 'modules/compile/expression.cpp'), ('result types of operators', 'include/modules/core.h (get_binary_vtype)')],
     ['standard output of the compiled program'],
     'differential monitor: program output vs independent reference evaluator',
     'Every operator x type pair, cast pair, conversion context and assignment target is executed on boundary and random values, plus random nested expressions; held on those executions. Trusts lib/aexpr.py.')

prop('C02', 'Constant expressions have one value, folded or computed',
     'An expression built from literals and named constants has the same value whether the compiler evaluates it '
     '(at any optimisation level, as a const, an enum value or a case label) or the running program computes it.',
     ['programs', 'configurations'], 'for every constant expression and every optimisation level',
     TESTS + 'none of them is compiled with optimisation on, so the compile-time evaluator is exercised only by a few enum values.',
     ['modules/core/expression_executor.cpp', 'modules/compile/expression.cpp', 'modules/april/compiler.cpp'],
     [('compile-time expression executor', 'modules/core/expression_executor.cpp'), ('constant folding switch', 'modules/compile/expression.cpp (__try_compile_constant_expression)')],
     ['standard output of the same program at -O 0..3'],
     'differential monitor: folded vs computed vs reference value',
     'Random constant expressions over all types, at every level, in every constant context; held on those executions.')

prop('C03', 'Control flow and local variables follow the language definition',
     'Every program built from blocks, if, switch, the four loop forms, break, continue, return, and short-circuit and '
     'conditional expressions executes exactly the statements its structure prescribes, in order and the prescribed number of times. '
     'A local variable keeps its value until it is assigned or leaves scope, whatever other variables are declared, assigned or leave scope meanwhile.',
     ['programs'], 'for every well-formed program using these statements',
     TESTS + 'each statement form appears in isolation with one or two iterations; nesting, early exits and slot reuse between scopes are not explored.',
     ['modules/compile/statements.cpp', 'modules/compile/xilx.cpp', 'modules/rt/locals_layout.cpp', 'modules/exec/commands.cpp', 'modules/lang_cs/ast_builder.cpp'],
     [('statement compilation and exit types', 'modules/compile/statements.cpp'), ('local slot layout', 'modules/rt'), ('jump and switch commands', 'modules/exec/commands.cpp')],
     ['standard output trace of the compiled program'],
     'trace monitor: printed execution trace vs reference interpreter over random programs',
     'Thousands of random structured programs whose every branch prints; traces equal to the reference interpreter. Trusts lib/agen.py.')

prop('C04', 'Exceptions reach the first matching handler; finally runs exactly once',
     'A thrown exception is handled by the innermost enclosing handler, in the throwing method or a caller, whose class is '
     'the exception\'s class or a base of it, and no other handler runs. '
     'Every finally block entered is run exactly once, inner before outer, on every way out of its try statement: normal end, exception, return, break or continue; variables keep the values they had. '
     'The handler sees the very object thrown, with its class, fields, message and inner exception, and throw; throws that object on.',
     ['programs', 'fault_sequences'], 'for every nesting of try statements, every class hierarchy, every point at which an exception is thrown',
     TESTS + 'none throws through more than one frame or leaves a protected block by return, break or continue.',
     ['modules/exec/commands.cpp', 'modules/exec/exec.cpp', 'modules/compile/statements.cpp', 'modules/rt'],
     [('exception search and unwinding', 'modules/exec/commands.cpp'), ('protected block tables', 'modules/compile/statements.cpp'), ('leave handling before return', 'modules/compile/xilx.cpp')],
     ['standard output trace of the compiled program'],
     'trace monitor: handler/finally trace vs reference interpreter over random throwing programs',
     'Random nestings with exceptions injected at random points; events (throws, catches, finally by cause) are counted in the evidence.')

prop('C05', 'Calls deliver arguments, references and results exactly',
     'In every call each argument value reaches its own parameter, arguments are evaluated once and left to right, ref and out parameters alias the caller\'s variable and value parameters are copies, and the result returned is the value of the return expression. '
     'Nested, recursive and mutually recursive calls do not disturb the caller\'s variables, and among overloads the one whose parameter types equal the argument types is called. A call through a delegate to a static or non-virtual instance method is the same call made directly.',
     ['programs'], 'for every signature (any number and mix of parameter types), call form and call nesting',
     TESTS + 'signatures have at most three parameters of one or two types.',
     ['modules/exec/commands.cpp', 'modules/compile/expression.cpp', 'modules/rt', 'modules/core/core.cpp'],
     [('argument layout', 'modules/rt (params layout)'), ('call commands', 'modules/exec/commands.cpp'), ('overload resolution', 'modules/core/core.cpp')],
     ['standard output: values printed by callee and caller'],
     'differential monitor: unique argument values traced through calls; reference interpreter',
     'Random signatures over 14 types with unique values, evaluation-order probes, overload sets, recursion; held on those executions.')

prop('C06', 'Dispatch, casts and type tests follow the object\'s class',
     'A virtual, abstract or interface member runs the implementation of the object\'s own class (the most derived override of the slot the call names, respecting new and new virtual), a base call runs the base class\'s implementation and a non-virtual member that of the static type. '
     'is, as and casts succeed exactly when the object\'s class is, derives from or implements the named type; a reference keeps its identity and an object keeps its fields, inherited ones included, apart from those of every other object.',
     ['programs'], 'for every class and interface hierarchy, every receiver class and every static type it is reached through',
     TESTS + 'hierarchies have two or three classes and one virtual method; slot layout depends on declaration order, hiding and interface inheritance.',
     ['modules/rt/rt.cpp', 'modules/core/assembly_writer.cpp', 'modules/exec/commands.cpp', 'modules/compile/expression.cpp', 'modules/rt/layout.cpp'],
     [('vtable and interface tables', 'modules/rt/rt.cpp'), ('virtual call commands, cast/is/as commands', 'modules/exec/commands.cpp'), ('object field layout', 'modules/rt/layout.cpp')],
     ['standard output: the method each call reached, results of casts and tests, field values'],
     'trace monitor: dispatch/cast/field trace vs a model of the class hierarchy',
     'Random hierarchies (classes, abstract classes, interfaces, hiding, properties) with every receiver reached through every static type; held on those executions.')

prop('C07', 'Structs are values: copies are independent, boxing copies',
     'Assigning, passing, returning, storing in a field, property or array element, boxing or unboxing a struct copies all of its fields and nothing else; changing one copy never changes another, while a method or ref parameter changes the very variable it was applied to. '
     'new S(), default(S), fields and array elements start with all fields zero, and boxed values keep their type: is and unboxing of built-in values accept exactly the boxed type.',
     ['programs', 'histories'], 'for every struct layout (any number and nesting of fields), every place a struct can live and every sequence of copies and changes',
     TESTS + 'structs have one or two fields of one size and are copied between locals only.',
     ['modules/compile/expression.cpp', 'modules/exec/commands.cpp', 'modules/rt/layout.cpp', 'modules/mm/mm.cpp'],
     [('struct copy and address compilation', 'modules/compile/expression.cpp'), ('copy, box and unbox commands', 'modules/exec/commands.cpp'), ('field and local layout', 'modules/rt/layout.cpp'), ('array allocation', 'modules/mm/mm.cpp')],
     ['standard output: values of all live copies after each step'],
     'history monitor: every copy checked against a value store after each random operation',
     'Random struct types and operation histories over locals, fields, nested fields, properties, array elements, arguments, results and boxes; held on those executions.')

prop('C08', 'Array elements are separate, bounded variables',
     'An array of any element type and any number of dimensions has exactly the lengths it was created with, every element starts zero or null or with its initialiser converted to the element type, and an element keeps the last value stored in it whatever is stored in other elements, arrays or objects. '
     'All references to an array see the same elements; a subscript outside the bounds of its own dimension, a negative length or a null array raises OutOfRangeException or NullReferenceException and changes nothing.',
     ['programs', 'inputs'], 'for every element type, rank, length, index type and value, and every history of operations',
     TESTS + 'arrays of int with a handful of elements and in-range constant indexes.',
     ['modules/exec/commands.cpp', 'modules/mm/mm.cpp', 'include/modules/mm.h', 'modules/compile/expression.cpp', 'modules/rtlib/array.cpp', 'core_lib/System/System.cs'],
     [('array allocation', 'modules/mm/mm.cpp (new_array)'), ('element push/pop/pick/address commands', 'modules/exec/commands.cpp'), ('array initialisers', 'modules/compile/expression.cpp, modules/exec/commands.cpp (init commands)')],
     ['standard output: elements, lengths and exceptions raised'],
     'history monitor: every element of every array checked against a model',
     'Random array histories over 16 element types and ranks 1-11 plus heaps of interleaved arrays; held on those executions.')

prop('C10', 'A program behaves the same however it is packaged',
     'The output of a program does not depend on how its types are divided into source files, projects, solutions and assemblies, on the order in which they are named, on the directory it is compiled or run from, nor on whether it is run from source or compiled to an assembly first and run later without its sources. '
     'Classes deriving from, implementing, calling, throwing and catching types of another assembly behave as if all were in one.',
     ['programs', 'configurations'], 'for every program and every division of it into files, projects and assemblies (fields of other assemblies reached through members)',
     TESTS + 'each is a single source compiled and run in one process; no test reads back an assembly other than System.apl.',
     ['modules/core/assembly_writer.cpp', 'modules/core/assembly_reader.cpp', 'modules/rt/assembly_loader.cpp', 'modules/rt/rt.cpp', 'modules/april/compiler.cpp', 'modules/april/parser.cpp'],
     [('assembly format writer and reader', 'modules/core/assembly_writer.cpp, modules/core/assembly_reader.cpp'), ('assembly loading and cross-assembly resolution', 'modules/rt/assembly_loader.cpp, modules/rt/rt.cpp'), ('project and solution driver', 'modules/april/compiler.cpp, modules/april/parser.cpp')],
     ['standard output of the same program in each packaging'],
     'metamorphic differential monitor: repackaged program output vs reference output',
     'Programs of the other generators in seven packagings, class hierarchies and function programs spread over 2-4 assemblies; held on those executions.')

prop('C11', 'Optimisation levels do not change what a program does',
     'Every program prints the same at -O 0, 1, 2 and 3: folding constants, removing unreached code and unnecessary expressions, determining constant variables and replacing switches preserve its output, the exceptions it raises and the order of its effects.',
     ['programs', 'configurations'], 'for every valid program and each optimisation level',
     TESTS + 'no unit test passes an optimisation level.',
     ['modules/compile', 'modules/core/expression_executor.cpp', 'modules/april/compiler.cpp'],
     [('optimisation switches', 'modules/april/compiler.cpp (__method_compile_controller_t::optimize)'), ('folding and removal', 'modules/compile/expression.cpp, modules/compile/statements.cpp, modules/compile/xilx.cpp')],
     ['standard output of the same program at -O 0..3'],
     'metamorphic differential monitor: output at each level vs reference output',
     'Samples of all program generators, each at the four levels; held on those executions.')

prop('C12', 'Valid programs never make april access memory out of bounds',
     'Compiling, loading and executing any valid program reads and writes only memory that is allocated and alive, inside the bounds of the object it belongs to, in the compiler, the assembly reader and writer, the runtime and its library.',
     ['programs', 'inputs'], 'for every valid program',
     TESTS + 'they run without instrumentation, so an overrun that happens to hit unused memory passes.',
     ['modules', 'algorithm', 'common', 'lib'],
     [('whole program instrumented', 'lib/vlib.py build_san')],
     ['AddressSanitizer reports and standard output of an instrumented build'],
     'AddressSanitizer and bounds-checked build executing generated programs',
     'Over a thousand programs of all generators, single and multi assembly, under ASan; no report on those executions.')

prop('C17', 'Operations that cannot be carried out raise their exception at that very point',
     'Reading, writing or calling a member through null, taking an element or the length of a null array, or throwing null raises NullReferenceException; a subscript or dimension out of range or a negative length raises OutOfRangeException; a cast or unboxing to a type the object does not have raises InvalidCastException. '
     'It is raised exactly when the failing operation is evaluated: effects of operands before it have happened, effects after it and the failing store itself have not, every other local, object and array keeps its value, and the exception is caught by the same handlers, runs the same finally blocks, crosses the same frames and, uncaught, ends the program with the same report as a thrown object of that class.',
     ['programs', 'inputs'], 'for every failing operation, every expression and statement context around it and every place it can occur',
     TESTS + 'faults are raised in a handful of statements directly inside a try block.',
     ['modules/exec/commands.cpp', 'modules/exec/executor.cpp', 'modules/rtlib/array.cpp', 'include/modules/mm.h'],
     [('null, bounds and cast checks of commands', 'modules/exec/commands.cpp (__CheckNullReference, __RaiseOutOfRangeException, __RaiseInvalidCastException)'), ('unwinding', 'modules/exec/commands.cpp (__raise_exception, __process_exception)'), ('library faults', 'modules/rtlib/array.cpp')],
     ['standard output: side effects before the fault, handler reached, state afterwards'],
     'trace monitor: exceptions, side effects before and state after each fault vs a reference',
     'Random programs with over 90 fault forms in 29 contexts, 20 places and 6 handler shapes; held on those executions.')

prop('C16', 'Spelling does not matter: layout, comments, names, order and literal forms',
     'The output of a program does not depend on white space, line ends and comments between its tokens, on the names its author chose (any distinct identifiers, of any length, starting like keywords or differing only in case), on empty statements, on the order of its types and members, nor on the way a literal is spelled. '
     'Every integer literal (decimal, hexadecimal, octal, binary, digit separators, u and l suffixes) has the exact value and the smallest fitting type, every floating literal is the nearest value of its type, and every character and string literal, escaped or verbatim, holds exactly the written characters.',
     ['inputs', 'programs'], 'for every source text in ASCII (outside the <` `> language switches)',
     TESTS + 'sources are laid out one way and use short decimal literals.',
     ['modules/lang_cs/cs_token_reader.cpp', 'modules/compile/token_reader.cpp', 'algorithm/numeric.cpp', 'modules/compile/analyze_tree.cpp', 'modules/compile/ast.cpp'],
     [('token reader', 'modules/lang_cs/cs_token_reader.cpp, modules/compile/token_reader.cpp'), ('numeric literals', 'algorithm/numeric.cpp'), ('parser', 'modules/compile/analyze_tree.cpp, modules/lang_cs')],
     ['standard output of the rewritten program; value and overload-selected type of literals'],
     'metamorphic monitor: output of rewritten sources vs reference, literal values vs a model',
     'Programs of seven generators rewritten at random, thousands of literals compared exactly; held on those executions.')

prop('C20', 'Console writes values exactly and in order, Math computes exactly',
     'Everything a program passes to Console.Write and Console.WriteLine appears on standard output completely, once, in program order, however much it is and however the program ends; integers in decimal, booleans as True and False, floating values with six significant digits, characters and strings verbatim, null as nothing, and WriteLine ends the line. '
     'Math.Max, Min, Abs, Sign and the real functions give the mathematical result for every argument type they are declared for.',
     ['inputs', 'programs'], 'for every value of every built-in type and every sequence of calls',
     TESTS + 'a few small values are written and Math is hardly used.',
     ['core_lib/System/Console.cs', 'core_lib/System/Math.cs', 'modules/rtlib/system.cpp', 'modules/rtlib/math.cpp', 'modules/rtlib/rtlib.cpp', 'modules/exec/commands.cpp'],
     [('Console', 'core_lib/System/Console.cs, modules/rtlib/system.cpp'), ('Math', 'core_lib/System/Math.cs, modules/rtlib/math.cpp'), ('library calls', 'modules/rtlib/rtlib.cpp, modules/exec/commands.cpp (__internal_call_command_t)')],
     ['the complete standard output'],
     'output monitor: complete output text vs model text of every value',
     'Random values of all types through all overloads and shapes; outputs up to 60000 lines; held on those executions.')

prop('C14', 'A program with an error is reported where the error is and never runs',
     'A source that uses an undefined name, type, member or function, calls with wrong arguments, assigns, passes or returns an incompatible type or null to a value type, uses an operator its operands do not have, reads a variable out of scope, reaches a private member, uses this or an instance member in a static one, rethrows outside a catch, declares a name twice, overrides what cannot be overridden, inherits in a circle, misses a return, or has a malformed literal, operator or statement is rejected: the compiler prints a diagnostic, the line it names is the line of the error, nothing of the program is executed and the compiler neither hangs nor is killed by a signal. '
     'The same program without the error compiles and runs. This holds wherever the error stands: in any statement, expression, member or type, reached or not.',
     ['programs', 'inputs'], 'for every program with one of these errors, every place it can stand and every optimisation level',
     TESTS + 'all of them are valid, so nothing checks that anything is rejected.',
     ['modules/compile/ast.cpp', 'modules/compile/ast_utils.cpp', 'modules/compile/analyze_tree.cpp', 'modules/compile/token_reader.cpp', 'modules/core/core.cpp', 'modules/lang_cs/cs_token_reader.cpp'],
     [('type and name analysis', 'modules/compile/ast.cpp, modules/compile/ast_utils.cpp (walk_expression)'), ('conversions', 'modules/core/core.cpp (is_type_compatible)'), ('syntax errors', 'modules/compile/analyze_tree.cpp'), ('stop before execution', 'modules/compile/compile.cpp, modules/april/compiler.cpp')],
     ['standard output and exit of the compiler for the broken program and for its valid twin'],
     'paired monitor: broken program rejected at its line and not executed, valid twin runs',
     'About a thousand random pairs (26 kinds of errors, 30 contexts, 8 places) per run; held on those executions. Kinds the compiler does not diagnose are listed in DESIGN.md.')

prop('C21', 'Operators, properties, indexers and enums do what their declarations say',
     'An expression with an operator declared by a class or struct runs exactly the body declared for those operand types, once, after its operands were evaluated from left to right, with struct operands passed by value and class operands by reference, and the expression has the returned value; references without a declared == are compared by identity. '
     'Reading or writing a property or indexer (own, inherited, virtual, through base or an interface, static, automatic, of a class, of a struct held in a local, a field or an array element) runs exactly the accessor of the object it belongs to, once, with the given indexes and value. '
     'Every enum member has its declared or counted-on value in its underlying type, and casts, comparisons, switch, parameters and storage keep that value.',
     ['programs', 'inputs'], 'for every set of declarations and every expression built from them at every optimisation level',
     TESTS + 'a few declarations are used once.',
     ['modules/compile/ast_utils.cpp', 'modules/compile/expression.cpp', 'modules/compile/ast.cpp', 'modules/core/core.cpp', 'modules/exec/commands.cpp'],
     [('operator resolution', 'modules/compile/ast_utils.cpp (__walk_op_expression), modules/compile/expression.cpp (__compile_operator_overload)'), ('accessors', 'modules/compile/expression.cpp (__compile_property_variable, __compile_assign_to)'), ('enum values', 'modules/compile/ast.cpp (__enum_fields_init_stub_t), modules/core/core.cpp (get_underlying_vtype)')],
     ['standard output: one line per run of an operator or accessor and the state afterwards'],
     'trace monitor: accessor and operator events vs a model of the declarations',
     'Hundreds of random declaration sets and expressions per run; held on those executions. `operator >>`, compound assignment and conversion operators are not supported by the compiler and not covered.')

prop('C22', 'A name denotes the declaration its scope prescribes',
     'A simple name denotes the innermost declaration around it: the local of the innermost block, then the parameter, then the member of the class and then of its bases (field, constant, property, static property, method, delegate), then the type or namespace of the enclosing types and namespaces from inside out, then what the using directives of the file offer. '
     'A qualified name is looked up member by member from what its first part denotes; this.X and o.X denote members only, whatever locals are called, and a hidden member is reached through a reference of the class that declares it. '
     'The order of declarations, splitting a namespace into several pieces and equal names in other scopes change nothing; reading, assigning, calling, creating, testing and casting through a name all use the same declaration.',
     ['programs', 'inputs'], 'for every arrangement of namespaces, nested types, using directives, class chains, members, parameters and locals with equal names, at every optimisation level',
     TESTS + 'names in them are unique, so a lookup that takes the wrong one of two is never seen.',
     ['modules/compile/ast_utils.cpp', 'modules/compile/expression.cpp', 'modules/compile/ast.cpp', 'modules/core/core.cpp'],
     [('names in expressions', 'modules/compile/ast_utils.cpp (__walk_name, __walk_inherited, __function_variable)'), ('types by name', 'modules/compile/ast_utils.cpp, modules/core/core.cpp (using directives)'), ('members', 'modules/core/core.cpp (get_member)'), ('code for the name', 'modules/compile/expression.cpp (__compile_variable)')],
     ['standard output: the identity or value of what each reference denotes'],
     'trace monitor: identity printed by every reference vs a scope resolver',
     '500 random arrangements per quick run; held on those executions. Static members and enums qualified through a namespace or an outer type and type aliases are not supported by the compiler and not covered.')

prop('C18', 'The C++ containers, strings, numbers and paths match their models',
     'heap_t, xheap_t, svector_t, small_vector, tree, bitset and the queue, stack and list helpers hold after every sequence of insertions, removals, copies, moves, resizings and traversals exactly the elements a plain model holds, in the same order, at unmoved addresses where they promise that, and never touch memory outside them. '
     'Sorting, selection, searching, joining, splitting, trimming, replacing, case conversion, block copies of any size and overlap, variable-length integers and pointer tags return what their definition says; what an encoder writes its decoder reads back. '
     'Parsing a number of any base, suffix, size and precision gives its value or reports the overflow or the error, and files and paths read back what was written and name the file they denote.',
     ['inputs', 'histories'], 'for every sequence of operations, every element count and size (past every internal row, growth and inline-buffer limit) and every input',
     TESTS + 'the unit tests call most containers once or twice with a handful of elements, below every growth limit.',
     ['algorithm/__collections.h', 'algorithm/collections.cpp', 'algorithm/__std.h', 'algorithm/__string.h', 'algorithm/numeric.cpp', 'algorithm/algorithm.cpp', 'include/algorithm.h', 'lib/file.cpp'],
     [('containers', 'algorithm/__collections.h, algorithm/collections.cpp'), ('strings', 'algorithm/__string.h, algorithm/string.cpp'), ('numbers', 'algorithm/numeric.cpp'), ('blocks, varints, algorithms', 'include/algorithm.h, algorithm/algorithm.cpp'), ('files and paths', 'lib/file.cpp')],
     ['contents, order, size, addresses and results after every operation; every memory access'],
     'model-based monitor: state after every operation vs std:: model, under AddressSanitizer',
     'About four million monitored operations and comparisons in eleven sections per quick run, twenty times that in the thorough tier; held on those histories.')
