prop("C01", "Garbage collection is invisible to the program",
"""A program produces the same output, the same result and the same errors no matter at which of its allocation points
the garbage collector runs. No object that the program can still reach - through locals, blocks and captured variables,
instance/class/global variables, constants, arrays, hashes, ranges, structs, exceptions, procs, methods, bindings,
suspended fibers and enumerators, match data, or values a built-in is currently working on - is ever reclaimed or altered by a collection.""",
["schedules","programs"],
"Every program of the corpus (all value-holding shapes x all holders, closed under one nesting), and for each every collection schedule with one or two collections plus the collect-everywhere schedule.",
"The tests run with the default allocation threshold, so nearly all of them never collect at all; which points collect is a schedule, and tests pick one.",
["alloc.rs","vm/executor.rs","vm/executor/opt_core.rs","value/rvalue.rs","value/fiber.rs","value/enumerator.rs","value/array.rs","value/hash.rs","globals.rs","value/procobj.rs","value/method.rs","value/range.rs","value/structobj.rs"],
[("mark phase from VM, globals, fibers and temp roots","alloc.rs: Allocator::gc; GC<RValue> for each container"),("temporaries pushed while built-ins build results","executor.rs: temp_push")],
[("allocation flag","a collection is due at the next safe point","alloc.rs: ALLOC.alloc_flag, VM::checked_gc")],
hook="cfg(ruruby_mc): decide at each VM safe point whether to collect; keep reclaimed cells poisoned")
prop("C02", "The collector reclaims exactly the unreachable objects",
"""After a collection the heap holds exactly the objects still reachable: dropped objects (cyclic ones included) are all reclaimed and reusable,
live ones keep their identity and contents, and no cell is ever handed out twice while live. Repeating a program step that keeps no references leaves the number of live objects unchanged, whatever number of objects and heap pages is involved.""",
["histories","inputs"],
"All sequences (to a depth) of allocate / drop / collect over the heap for populations around the page and bitmap boundaries, and every keep-nothing program step of the corpus repeated.",
"Tests never look at heap occupancy and rarely fill one heap page (about 4,000 objects); leaks and double hand-outs depend on the allocation history.",
["alloc.rs","value/rvalue.rs","builtin/gc.rs"],
[("free list and mark bitmap","alloc.rs: Allocator::{alloc,gc,sweep}"),("page allocation","alloc.rs: PageRef")],
[("mark bits","one bit per cell of each page","alloc.rs: Page::mark_bits")],
observe=["allocator API","live object count"])
prop("C03", "Method dispatch follows the current class graph after any history",
"""A call reaches exactly the method that Ruby's method resolution order of the receiver's class graph at that moment selects - singleton class, prepended modules, class, included modules, superclasses, then method_missing -
whatever sequence of definitions, redefinitions, alias_method, include, prepend, extend, singleton definitions and class re-openings came before and however often the call site was executed in between. super from a method continues after the method's own owner,
and ancestors, instance_methods, method_defined?, respond_to?, method, owner, is_a?, === and superclass report the same graph. Covered: single-argument include/prepend/extend of modules nobody else extends afterwards, each module at most once in an ancestor list; visibility and removal of methods are not enforced by ruruby and are left out.""",
["histories","programs"],
"All histories to a depth of class-graph operations over a small universe of classes and modules, with every call site executed after every step.",
"Each call site caches its target; staleness shows only for particular orders of definition and use, of which tests pick a few.",
["globals/method.rs","vm/executor/method.rs","vm/executor/opt_core.rs","value/module.rs","builtin/module.rs","builtin/object.rs"],
[("inline method cache and global method cache with class version","globals/method.rs, vm/executor"),("include/prepend origin insertion","value/module.rs: append_include, append_prepend")],
[("class_version","invalidates the method caches","globals.rs / globals/method.rs")])
prop("C04", "Constant references always see the current constant binding",
"""A constant reference evaluates to the value that Ruby's lookup selects at that moment - lexically enclosing classes and modules from the inside out, then the ancestors of the innermost one, then top level; A::B only in A and its ancestors - whatever definitions and reassignments
happened before and however often that reference was evaluated already. An unresolvable constant raises NameError and defining it later makes the same reference succeed; const_get, const_defined? and constants agree.""",
["histories","programs"],
"All histories to a depth of constant definitions in a nest of scopes, with references at every nesting executed after every step.",
"Constant sites cache the value; a stale value needs one particular order of use and definition.",
["globals/constants.rs","vm/executor/constants.rs","vm/executor/opt_core.rs","builtin/module.rs"],
[("inline constant cache keyed by a global constant version","vm/executor, globals")],
[("const_version","bumped when any constant binding changes","globals.rs")])
prop("C05", "Non-local control flow runs exactly the right code in the right order",
"""For every nesting of if/unless/while/until/for/loop/blocks/methods/begin-rescue-else-ensure with break, next, redo-free loops, return and raise in any position, the program executes exactly the statements Ruby's semantics prescribe, in order:
every ensure clause on the way runs exactly once, the first matching rescue is chosen, else runs only without an exception, and the construct yields the prescribed value. Exceptions keep their class and message, and an uncaught one surfaces unchanged.""",
["programs"],
"Every program tree up to a size bound over the control constructs and jumps, executed with a trace.",
"Tests contain single instances of each construct; the bugs live in combinations (break out of a block inside ensure inside a loop...).",
["codegen.rs","vm/executor.rs","vm/executor/opt_core.rs","builtin/kernel.rs","error.rs"],
[("exception tables and stack unwinding","codegen.rs: ExceptionEntry; vm/executor.rs: handle_error"),("break/next/return as internal errors","error.rs: RubyErrorKind")])
prop("C06", "Arguments bind to parameters as declared, or the call is rejected",
"""For every parameter list (required, optional, rest, post, keyword, double-splat, block) and every argument list (positional, splat, keywords, hash, block), a call to a method, lambda or block binds each parameter to the value Ruby prescribes, evaluating default values left to right only when needed;
methods and lambdas raise ArgumentError exactly when the counts do not fit, while procs and blocks pad, truncate and unpack a single array. Left out: nested destructuring parameters, argument forwarding (...), and surplus keywords to a method with required parameters only (ruruby drops them and its tests rely on it).""",
["inputs","programs"],
"The full product of parameter lists and argument lists up to a size bound, for methods, lambdas, procs, blocks, super and send.",
"The parameter x argument product is large and tests cover a handful of diagonal entries.",
["vm/args.rs","vm/executor/frame.rs","vm/executor/opt_core.rs","vm/iseq.rs","codegen.rs","ruruby-parse"],
[("fast path for simple parameter lists","vm/executor/frame.rs"),("general fill of opt/rest/post/keyword","vm/args.rs")])
prop("C07", "Closures share variables with their scope for as long as they live",
"""Blocks, procs, lambdas, bindings and eval'd code read and write the very variables of the scope they were created in: each write is seen by all the others sharing that scope, before and after the defining method has returned, while distinct activations and block-local parameters stay distinct.
return and break inside a closure end the construct Ruby prescribes, self and the block of the enclosing method are those of the defining scope, and instance_exec / class_exec change only self.""",
["programs","histories"],
"Every program to a size bound that creates closures over up to two variables and scopes, moves them around and interleaves reads and writes.",
"Moving a frame from the stack to the heap is done lazily at capture; whether a variable splits into two copies depends on the order of capture, write and return.",
["vm/executor/frame.rs","vm/executor/heap_ctx.rs","builtin/procobj.rs","builtin/binding.rs","codegen.rs"],
[("lazy promotion of frames to heap contexts","vm/executor/frame.rs: move_outer_to_heap"),("outer context chain","codegen.rs: local variable lookup by depth")])
prop("C08", "Fibers and enumerators switch and resume without losing state",
"""A fiber runs until it yields or ends: resume passes its value to the first parameters or to the pending Fiber.yield, yield passes its value to resume, each fiber keeps its own locals and call depth, any interleaving of resumes of several (also nested) fibers behaves as sequential coroutines do,
a finished fiber raises FiberError and an exception inside a fiber surfaces in its resumer. External enumerators (next) deliver exactly the sequence that each delivers, independently of each other, then raise StopIteration.""",
["schedules","histories"],
"Every resume/next schedule to a depth over two or three fibers or enumerators of every body shape.",
"The resume order is a schedule; tests use one order per program.",
["coroutine.rs","coroutine/asm_x86_64.rs","value/fiber.rs","builtin/fiber.rs","builtin/enumerator.rs","value/enumerator.rs"],
[("machine stack switching","coroutine/*.rs"),("fiber state machine","coroutine.rs: FiberState")],
[("FiberState","created / running / dead","coroutine.rs")])
prop("C09", "Array operations agree with a sequence model",
"""Every history of Array operations - [] []= with an integer, (start, length) or range, slice!(start, len), first last push pop shift unshift concat << + - *, fill clear compact uniq flatten reverse rotate! transpose zip drop delete include? index count join min <=> == bsearch,
and the iterating methods each map flat_map select reject partition inject find any? all? each_with_index each_index group_by delete_if map! and the like - returns the value and leaves the contents that Ruby's definition prescribes for a plain sequence, including when a block changes the receiver. Operations not documented as mutating leave receiver and arguments unchanged, and an array never aliases another one's storage.""",
["inputs","histories"],
"All argument combinations around the ends of arrays up to length 5 and all operation sequences to a depth over two arrays.",
"Index arithmetic at the ends (negative, one past the end, longer than the array) has many corners and tests sample few.",
["builtin/array.rs","value/array.rs"],
[("index normalisation and slice arithmetic","value/array.rs: get_elem, set_elem")])
prop("C10", "Hash operations agree with an insertion-ordered map",
"""After every history of Hash operations - []= [] delete fetch key? include? has_value? merge select reject invert sort compact clear clone dup default length keys values each each_key each_value to_s - contents and enumeration order are those of a map ordered by first insertion, with keys of the built-in classes identified by eql? (1 and 1.0 are different, equal strings, arrays and hashes are the same key) or by identity after compare_by_identity.
Re-assigning a key keeps its place, deleting and re-adding moves it to the end, non-mutating operations leave the receiver unchanged, and copies are independent.""",
["histories","inputs"],
"All operation sequences to a depth over a small set of colliding and near-equal keys.",
"Ordering after delete / re-insert depends on the history.",
["builtin/hash.rs","value/hash.rs","value/value.rs"],
[("ordered hash table with eql?/identity key wrappers","value/hash.rs")])
prop("C11", "String operations agree with a character-sequence model",
"""Every String operation - [] []= slice! with integers, (start, length) pairs, integer ranges and substrings, + * << concat center ljust rjust strip lstrip rstrip chomp chars bytes codepoints lines each_char each_byte split (with string separators) join, sub gsub gsub! scan with string patterns, tr and count with character sets, start_with? end_with? include?, upcase downcase, == eql? <=> < <= > >=, use as hash key, succ/next (ASCII), to_i ord sum size length to_sym replace empty? inspect -
returns what Ruby prescribes for the sequence of characters (ASCII and multi-byte alike, at every length: strings are stored inline or on the heap), and only mutating operations change the receiver (also when the argument is the receiver itself), never any copy, substring or symbol made from it. (chomp without argument removes every trailing newline here.)""",
["inputs","histories"],
"All strings up to a length over a small alphabet with multi-byte characters, all index arguments around the ends, all short histories.",
"Byte/character confusion and end-of-string cases need particular contents.",
["builtin/string.rs","value/string.rs"],
[("character index conversion","value/string.rs, builtin/string.rs")])
prop("C12", "Integer arithmetic is exact at every magnitude",
"""+ - * / % ** -@ & | << >> <=> comparisons, abs gcd lcm pow divmod-free div fdiv even? odd? digits bit_length to_s Integer() and to_f of any two integers give the mathematically exact result, with floor division and the sign of the divisor for %, whether operands and result are small or arbitrarily large;
a result never wraps around or changes type at a machine-word border. Division by zero raises ZeroDivisionError.""",
["inputs"],
"All operand pairs from the neighbourhoods of 0, +-2^k for every representation border (2^30..2^64, 2^127, 2^128) for every operator, written as literal operands, as variables, and as op-assign.",
"Overflow borders are points in a large input space.",
["arith.rs","builtin/integer.rs","value/value.rs","vm/executor/opt_core.rs","codegen.rs"],
[("checked small-integer arithmetic falling back to big integers","arith.rs, vm/executor/ops.rs"),("packed small integers","value/value.rs")])
prop("C13", "Specialised instructions agree with the general operation",
"""An operator or index expression has the same value and the same side effects however it is written and compiled: with literal or variable operands, as an operand of if/unless/while/ternary conditions, under !, as op-assign, or as an explicit method call (a.+(b), send).
This stays true for every operand type, raises the same error class where no such operation exists, and honours operators defined by user classes, by subclasses of built-in classes and by singleton objects.""",
["programs","inputs"],
"The product of operators x operand types x syntactic positions.",
"Each optimised instruction duplicates the semantics; a divergence shows only for one operand type in one position.",
["codegen.rs","vm/executor/opt_core.rs","vm/executor/ops.rs","arith.rs"],
[("immediate-operand and compare-and-jump instructions","codegen.rs; vm/executor/opt_core.rs")])
prop("C14", "Expressions parse with Ruby's precedence, associativity and layout rules",
"""Every expression built from the unary, binary, ternary, range, assignment, and/or, modifier, call and index forms groups according to Ruby's precedence and associativity table; adding the parentheses that spell out this grouping never changes the result.
Whitespace, comments, line breaks where Ruby allows them, and the choice between equivalent forms (; or newline, then, do/braces, modifier or block form, call with or without parentheses) do not change the meaning either.""",
["inputs","programs"],
"All expression trees up to four operators, printed with minimal parentheses and with every layout variant.",
"The number of operator pairs/triples is quadratic/cubic; tests have a few.",
["ruruby-parse/src/parser.rs","ruruby-parse/src/lexer.rs","codegen.rs"],
[("recursive-descent precedence levels","ruruby-parse/src/parser*.rs"),("context-dependent lexing","ruruby-parse/src/lexer.rs")])
prop("C15", "case/when selects the first clause whose === accepts the value",
"""case evaluates its subject once, tests the when values left to right, top to bottom with pattern === subject until one accepts, runs that body only, and otherwise the else body or nil - for literal integers (dense, sparse, negative, duplicated, very large), strings, symbols, floats, nil, ranges, classes, regexps, splatted arrays, user objects, mixtures of them and subject-less case.
The result does not depend on how many clauses there are, whether they are all literals of one kind, or the type of the subject.""",
["inputs","programs"],
"All clause lists up to a size over a small literal alphabet x all subjects.",
"All-literal cases compile to a jump table; the difference from the general form is visible only for particular tables and subjects.",
["codegen.rs","vm/executor/opt_core.rs","vm/iseq.rs"],
[("jump tables for literal when clauses","codegen.rs: gen_case; OPT_CASE, OPT_CASE2")])
prop("C16", "Assignment forms evaluate once, in order, and assign the right parts",
"""Multiple assignment (a, b = ...; splats on the right; a trailing comma; swaps; index, attribute, constant, instance, global and class variable targets; nested right-hand values; lone sources of any type) binds every target to the element Ruby prescribes, and evaluates to the right-hand side.
Op-assign (+= ||= &&= and the rest) on every kind of target evaluates receiver and index exactly once, performs the operation on the current value, assigns only when it should, and yields the assigned value.""",
["programs","inputs"],
"All target lists x source lists up to four elements and all operator x target x initial value combinations, with a trace of evaluations.",
"Tests cover a few shapes; double evaluation is only visible with side-effecting receivers.",
["codegen.rs","ruruby-parse/src/parser.rs","vm/executor/opt_core.rs"],
[("OPT/TAKE multiple-assignment instructions","codegen.rs: gen_mul_assign")])
prop("C17", "Literals denote the value they spell; inspect spells it back",
"""Every literal - integers in all bases with underscores, floats with exponents, single- and double-quoted strings with all escapes, %-literals, symbols, character escapes \\\\x \\\\u, interpolation, heredocs, arrays, hashes, ranges, regexps, nil/true/false - evaluates to the value it denotes.
For values composed of integers, floats, strings, symbols, booleans, nil, arrays, hashes and ranges, evaluating the text of inspect (or p) gives back an equal value of the same type, and puts/print/to_s produce the prescribed text.
(Not provided: squiggly heredocs, %s(), several code points in one \\u{}, escapes of single bytes above \\x7f, quoted inspect of symbols which need quotes, negative zero.)""",
["inputs"],
"All literals of each kind over a small alphabet up to a length; all composite values up to a size, round-tripped through eval.",
"Escape and number syntax has many combinations, each exercised at most once.",
["ruruby-parse/src/parser/lexer.rs","value/value.rs","value/string.rs","builtin/symbol.rs","builtin/float.rs"],
[("literal lexing","ruruby-parse/src/parser/lexer.rs"),("inspect / to_s","value/value.rs")])
prop("C18", "Ranges and integer iterations visit exactly the prescribed values",
"""Range#each map flat_map to_a include? === first last all?, for loops over ranges, and Integer#times upto downto step (with Integer steps) treat inclusive and exclusive, empty, reversed, negative and huge bounds, and Float limits, as Ruby does, visit each element once in order, and yield the prescribed return value; external enumerators over them give the same elements.
Ranges of strings behave as successor sequences (String#succ up to the length of the end; single characters and digit strings by their own rules), and break/next inside the iteration stop or continue it.""",
["inputs"],
"All (begin, end, exclusive, count/step) combinations over a small integer window and around the small/large integer border.",
"Off-by-one behaviour at each end is a property of all bounds.",
["builtin/range.rs","builtin/integer.rs","value/range.rs","codegen.rs"],
[("iteration loops","builtin/range.rs, builtin/integer.rs")])
prop("C19", "Equality, hashing, identity and ordering are mutually consistent",
"""For all values ==, eql?, equal?, ===, !=, <=> and use as Hash key are consistent: == is reflexive (except NaN), symmetric and transitive, eql? implies == and the same hash slot, != is its negation, equal? holds only for the same object, integer/float comparisons are exact (Integers beyond 2**53 are compared with Floats as Floats), arrays and hashes compare element-wise, and <=> is antisymmetric, agrees with == and < and returns nil exactly for incomparable values.
Sorting, min, max, uniq, include?, index, count, delete, array difference and hash lookup agree with these relations; containers which contain themselves are compared too. Structs are compared member by member with ==; eql? of Structs and user-defined eql? and hash are not provided.""",
["inputs"],
"All pairs (and triples) from a set of values of every type, including nested containers, equal-but-distinct objects, and mixed numeric types at representation borders.",
"Laws over pairs and triples need the whole product.",
["value/value.rs","value/hash.rs","value/array.rs","arith.rs","builtin/comparable.rs","builtin/object.rs"],
[("structural equality and hashing of values","value/value.rs: Hash/Eq impls, VM::eval_eq")])
prop("C20", "Object state is per object, shared only where Ruby shares it",
"""Instance variables belong to one object, singleton methods to one object, class variables to a class and its descendants, globals to the program: after any history of reads and writes through methods, attr_accessor/reader/writer, instance_variable_get/set, Struct members, dup, clone, extend and class re-opening, each read yields the last value written to that very slot, or nil / NameError when never written.
dup and clone copy the state once and are independent afterwards; instance_variables, class_variables and respond_to? list exactly what exists.""",
["histories"],
"All histories to a depth over two or three objects of related classes that assign variables in different orders.",
"Slots are found through per-class inline caches; a wrong slot needs two classes and an order of first assignments the tests do not have.",
["vm/executor/opt_core.rs","value/rvalue.rs","value/class.rs","builtin/object.rs","builtin/structobj.rs","builtin/module.rs"],
[("per-class slot tables with inline cache","vm/executor/opt_core.rs: ivar access"),("class variables on the owner class","vm/executor/constants.rs")])
prop("C21", "Regexp matching, match variables and substitution agree with a matcher model",
"""=~ (of Regexp, String, Symbol, nil), !~, match, Regexp#===, case/when, the match variables ($&, $', $1.., Regexp.last_match(n)), split, scan, sub, gsub, gsub! (replacement string with back references, or block), slice! and [] with regexps - literals with flags i and m, interpolated ones, %r and Regexp.new - find the leftmost match with Ruby's greedy/lazy/alternation preference, report character positions, produce every non-overlapping match once (empty matches included) and replace exactly those; ^ and $ match at every line.
A failed match returns nil and clears the match variables; the variables always belong to the last match. A String given as a pattern, and Regexp.escape of any text, stand for exactly that text. match gives the list of the whole match and its groups (there is no MatchData).""",
["inputs","histories"],
"All patterns up to a size over a small pattern grammar x all short strings (with a multi-byte character).",
"Empty matches, byte/character offsets and stale captures arise for particular pattern/subject pairs.",
["builtin/regexp.rs","value/regexp.rs","builtin/string.rs"],
[("captures published as special variables","builtin/regexp.rs: get_captures"),("find/replace loops","builtin/regexp.rs: replace_*, find_all")])
prop("C22", "Formatting and number/text conversion follow the directive exactly",
"""String#% (directives d x X b f s c %% with zero padding, width and precision; flags other than 0 are not implemented), Integer#to_s, String#to_i and Integer() (decimal), Float#to_s (shortest text that reads back, Ruby's layout), Float#to_i and floor, digits, ord, chr, and center/ljust/rjust produce exactly the text or number prescribed for every argument, including negative, zero, huge, fractional and infinite ones, take arguments in order, and raise when there are too few or they have no such value.""",
["inputs"],
"All flag x width x precision x directive combinations over boundary arguments; all short digit strings for the conversions.",
"The product of flags, widths and arguments is far larger than the samples in the tests.",
["builtin/string.rs","builtin/integer.rs","builtin/float.rs","builtin/kernel.rs","value/value.rs"],
[("format directive parser","builtin/string.rs: rem / format")])
prop("C23", "require, require_relative, load and autoload load each file as specified",
"""require and require_relative evaluate a file once however often, in whatever order, from whichever file and through whichever equivalent path they are called, returning true then false; load evaluates each time; autoload loads on first reference to its constant only. Definitions of a loaded file are visible afterwards, its locals are not, a missing file raises LoadError,
an error inside a file surfaces to the requirer and lets the file be required again, __FILE__-relative resolution follows the requiring file, load does not count as require, defined? and const_defined? load nothing, and only paths which are neither absolute nor start with ./ or ../ are searched for in the load path.""",
["histories","configurations"],
"All small dependency graphs of files (cycles included) and all call sequences to a depth.",
"Load state depends on the history of loads and the graph.",
["globals.rs","builtin/kernel.rs","vm/executor.rs","globals/constants.rs"],
[("set of loaded files by canonical path","globals.rs: add_source_file; kernel.rs: load_exec")])
prop("C24", "No program can crash the interpreter: built-ins fail only by raising",
"""Calling any built-in method with any receiver of its type, any number and types of arguments and with or without a block either returns a value or raises a Ruby exception that rescue can catch; the interpreter process itself never panics, aborts, hangs or corrupts memory (a call that asks for an endless computation, as a loop up to 2**62, runs on).
After such an exception the interpreter continues to work normally.""",
["inputs","programs"],
"Every built-in method of every class x every argument tuple up to length two (three for indexed writes) from a value of each type incl. boundary values, with/without a block.",
"Tests call built-ins with sensible arguments; the product of methods and wrong-typed or extreme arguments is never visited.",
["builtin","value","vm/executor.rs","error.rs"],
[("argument count and type checks in each built-in","builtin/*.rs: check_args_*, expect_*")])
prop("C25", "Any source text is either run or rejected with SyntaxError",
"""For every sequence of tokens or characters, the front end terminates and either compiles the text or reports a syntax error with a position inside the text; it never panics, hangs or aborts. A rejected text executes nothing. A text of the literal and operator sub-language (integers, + - * == && !, parentheses, array and hash literals, indexing, ?:, if and and, newlines and semicolons) is accepted exactly when Ruby's grammar derives it; and a program cut off before its end is rejected - as incomplete, so that a REPL asks for more, when it is cut at the end of a line.""",
["inputs"],
"All token sequences up to a length over an alphabet covering every token class, bare and in every syntactic context, all token sequences of the sub-language against a recogniser, and all prefixes and single-token edits of a corpus of valid programs.",
"Tests parse well-formed programs only.",
["ruruby-parse/src/parser.rs","ruruby-parse/src/lexer.rs","codegen.rs","vm/executor.rs"],
[("error returns of lexer, parser and code generator","ruruby-parse, codegen.rs")])
prop("C26", "A session survives errors with its state intact",
"""Programs or REPL inputs run one after another in one interpreter see exactly the effects of what executed before: after an input fails with any error - syntax error, uncaught exception at any depth, inside blocks, ensure, fibers or eval - the following inputs behave as if only the executed part of the failed one had run, top-level locals, methods, classes, globals and constants persist,
and nothing of the failed activation (stack, block, temporary values) leaks into later ones.""",
["histories","fault_sequences"],
"All sequences to a depth of inputs from an alphabet of succeeding and failing inputs, each fault position enumerated.",
"Recovery state depends on what failed before; each test uses a new interpreter and ends at the first error.",
["vm/executor.rs","lib.rs","builtin/binding.rs"],
[("unwinding on error","vm/executor.rs: run, eval_binding, clear"),])
prop("C27", "File operations read back what was written, at the path that was named",
"""File.write read binread readlines exist? file? directory? realpath join basename extname dirname expand_path and Dir.glob, [], exist? and pwd act on exactly the path named, as the operating system resolves it: reading through any name of a file returns the bytes written last, missing files raise a StandardError, Dir.glob returns exactly the entries its pattern (?, *, **/) describes, join/basename/dirname/extname/expand_path compute the prescribed path for every combination of separators, dots and empty components.""",
["inputs","histories"],
"All paths up to four components over {a, b.rb, ., .., empty, .hidden} and all short histories of writes and reads in a scratch directory.",
"Path corner cases are a combinatorial space.",
["builtin/file.rs","builtin/dir.rs","builtin/kernel.rs"],
[("path manipulation","builtin/file.rs")])
prop("C28", "Sorting and searching are correct for every input order and size",
"""sort, sort with a block, sort_by, min, max, uniq, bsearch, bsearch_index, group-free selection methods return a correctly ordered permutation (or the correct element) for every input: all permutations and duplicate patterns, all lengths around the internal run boundaries, presorted, reversed and mixed runs, mixed Integer/Float values,
and the comparison block is called only with elements of the receiver. Errors and breaks from the comparison propagate and leave the receiver a permutation of itself.""",
["inputs"],
"All arrays of length up to 7 over 3-4 keys, and all two-run/three-run structured arrays of lengths around 20, 32, 64.",
"The sort switches algorithm by length and run structure; tests sort short arrays.",
["value/array.rs","builtin/array.rs","vm/executor"],
[("merge sort with insertion-sorted short runs","value/sort or builtin/array.rs")])
prop("C29", "defined?, respond_to? and existence queries never disagree with use",
"""defined?(e) returns nil exactly when a variable, constant, method, ivar, global, superclass method or block which e itself needs is missing (in calls, operators, index and array expressions: which any part needs, or when evaluating a receiver raises), and otherwise the prescribed description, without evaluating e - except the receivers of calls - or assigning anything; respond_to?, method_defined?, methods, instance_methods, const_defined?, local_variable_defined?, instance_variables and block_given? agree with what happens when the thing is then used.""",
["programs","histories"],
"All expression kinds x existence states x contexts (top level, method, block, class body, after conditional definition).",
"The relation between query and use holds over all contexts.",
["codegen.rs","vm/executor/opt_core.rs","builtin/object.rs"],
[("CHECK_* instructions","codegen.rs: gen_defined")])
