prop('C07', 'OS failures in file, process and signal calls are reported, never invented',
     'Whenever an operating-system call fails inside a file, directory, descriptor, process-spawning or signal library function that reports errors, that function reports a non-zero error to its caller, unless it recognised that specific error and recovered; after a successful recovery it reports success. Reads and writes that the system completes only partially are continued from where they stopped, and a transfer that stops short is not reported as success. When a step of publishing a compiled file fails (writing, renaming, marking executable, running the C++ compiler), the build never reports success.',
     ['fault_sequences', 'inputs'], 'every system call in these functions, failing at any call and in any combination, with any errno and any partial byte count',
     'Tests run on a healthy file system: they do not make close, mkdir, sigmask, spawn setup or a mid-file read fail, nor produce short transfers.',
     ['lib/file.fu', 'lib/fs.fu', 'lib/FD.fu', 'lib/spawn.fu', 'lib/signal.fu', 'lib/exec.fu', 'lib/file.fu.cpp', 'lib/fs.fu.cpp', 'lib/spawn.fu.cpp', 'lib/exec.fu.cpp', 'src/build.fu'],
     [('file read/write', 'lib/file.fu read, write, chmod, unlink, rename, stat'), ('directories', 'lib/fs.fu mkdir_p, readdir'),
      ('child processes', 'lib/spawn.fu spawn, close, pipe; lib/exec.fu exec'), ('signals', 'lib/signal.fu block, unblock, kill'),
      ('publication of build results', 'src/build.fu atomic_write, buildTarget, update_file')],
     'disjunctive abstract interpretation (error-flow typestate) over LLVM IR of the translated library',
     'Every path of every error-reporting function is covered with each call forked into failed/succeeded; values are abstracted to signs and constants. Recovery is recognised by comparison with a specific errno. The event loop body itself is out of scope.')
prop('C06', 'OS resources are released exactly once and never leak into children',
     'Every file descriptor, directory handle, popen stream and posix_spawn attribute or file-actions object that a file, directory, process, signal or event-loop library function acquires is, on every path on which the function returns - including every failure path - either released exactly once or handed to the caller; none is released twice or used after its release. Every descriptor the library creates for its own use is close-on-exec, so a concurrently spawned child cannot inherit it, while the streams opened for a child are not close-on-exec.',
     ['fault_sequences', 'schedules'], 'every path through each function, with every system call failing or succeeding in any combination; every interleaving with another thread that spawns a child',
     'A leaked or doubly closed descriptor shows only on failure paths or after thousands of calls, and inheritance only when another thread forks in between; tests never inject those.',
     ['lib/file.fu', 'lib/fs.fu', 'lib/FD.fu', 'lib/spawn.fu', 'lib/signal.fu', 'lib/exec.fu', 'lib/ev/Loop.fu', 'lib/file.fu.cpp', 'lib/spawn.fu.cpp', 'lib/exec.fu.cpp'],
     [('open/close pairing', 'lib/file.fu read, write; lib/fs.fu readdir; lib/FD.fu close'), ('pipes of a child', 'lib/spawn.fu pipe, close_both, close_one_lax, spawn'),
      ('signal descriptors', 'lib/signal.fu block, unblock'), ('close-on-exec flags', 'open/pipe2/socket/accept4/epoll_create1/inotify_init1/signalfd flags')],
     'ownership typestate over LLVM IR of the translated library (disjunctive abstract interpretation) plus a flag-argument query on descriptor-creating calls',
     'Same-module callees are inlined; descriptors stored into caller-visible objects count as handed over, so the lifetime of descriptors kept inside a running event loop is not tracked further. popen in lib/exec is a listed known finding.')
VECF = ['include/fu/vec.h', 'include/fu/vec_range.h', 'include/fu/view.h', 'include/fu/vec/*.h', 'include/fu/mem/arc.h', 'include/fu/mem/*.h']
prop('C01', 'Vectors are values: an operation yields exactly its result and nothing else',
     'For every vector, view and range operation of the runtime, every element type, every representation of its operands (empty, inline, uniquely owned, shared with other vectors) and every valid argument - including operands that are parts of each other - the resulting sequence is the one the operation specifies, element by element. No operation ever changes the content of a vector it was not asked to change: writing through one vector is never visible through another that shares its storage. Newly exposed elements of a non-junk growth are zero-initialised.',
     ['inputs', 'histories', 'schedules'], 'all sizes, capacities, indices and counts; all ownership states of every operand; all aliasing of operands; another thread adding or dropping shares at any moment',
     'Tests use a few short vectors; aliasing between source and destination, sharing, inline/heap transitions and capacity boundaries are combinations they only sample.',
     VECF,
     [('copy on write', 'include/fu/vec.h UNSAFE__Unshare, _Splice, _Pop, _Shift*'), ('splice and append', 'include/fu/vec.h splice_copy, append_copy, init_copy'),
      ('concatenation', 'include/fu/vec/concat*.h'), ('in-place ranges', 'include/fu/vec_range.h'), ('slices', 'include/fu/view.h, vec/slice.h')],
     'abstract interpretation of the fully inlined LLVM IR of each operation: affine inequalities (Fourier-Motzkin), bit provenance of the packed header, array segmentation of element storage, ownership typestate',
     'Each of about 110 operations is instantiated for up to 7 element types and interpreted from every representation and aliasing of its operands with symbolic sizes; results are compared with a contract in harness/rt_vec.spec. Integer overflow of sizes is assumed away. Paths the domain cannot decide are counted in the evidence and not reported.')
prop('C02', 'Vector storage and elements are released exactly once, never while in use',
     'Every heap block a vector operation allocates or drops a share of is, at return, referenced by exactly as many vectors as its reference count says: never freed while a vector still refers to it, never leaked, never released twice. Every element that owns something is destroyed exactly once: elements moved out or relocated are not destroyed, overwritten and removed ones are, and uninitialised storage never is.',
     ['inputs', 'histories'], 'all sizes, arguments, representations, ownership states and aliasing of the operands of every vector operation',
     'A leak or premature free needs a particular combination of sharing, capacity and argument order; the tests run without a leak checker.',
     VECF,
     [('reference counting', 'include/fu/mem/arc.h; vec.h _Dealloc, UNSAFE__MarkShared'), ('element lifetime', 'include/fu/vec.h, include/fu/mem/*.h'), ('moves', 'vec.h move constructor and assignment')],
     'ownership and initialisation typestate in the same abstract interpretation of inlined LLVM IR (affine inequalities, header bit provenance, array segmentation)',
     'At every return the share count of each block is compared with the vectors that refer to it, and the destructor obligations of every element range are settled. Thread interleavings of the counter itself are outside this check.')
prop('C04', 'Container accesses stay in bounds; bad indices trap instead of reading memory',
     'No vector, view, array or range operation reads or writes outside the live storage of the operands it was given, whatever their size, representation and arguments allowed by its precondition. Indexing with any 32-bit index either yields exactly the addressed element or traps; slicing with any bounds yields a window inside its source. This holds with assertions on and off, and assertions never stop a valid call.',
     ['inputs', 'configurations'], 'all 32-bit indices, counts and bounds; all sizes and representations; assert-enabled and release builds',
     'Tests index with a handful of valid values; negative, huge or boundary indices and inline/heap boundaries are not sampled, and out-of-bounds reads pass silently without a sanitizer.',
     VECF + ['include/fu/inl.h'],
     [('element access', 'include/fu/vec.h operator[], mutref; view.h operator[]; inl.h'), ('slices', 'include/fu/view.h, vec/slice.h'), ('storage arithmetic', 'include/fu/vec.h _Splice, _Realloc')],
     'abstract interpretation of inlined LLVM IR with affine inequalities over offsets, sizes and capacities (Fourier-Motzkin), debug and release configurations',
     'Every access of every path is an obligation 0 <= off, off+len <= size decided in the affine domain. Integer overflow of sizes is assumed away; parameters documented by an assertion are taken as preconditions.')
prop('C03', 'Parallel loops run every index exactly once and return when all is done',
     'A parallel for over a range calls its body on pieces that together cover every index of the range exactly once, none twice and none outside it, whatever the range length, batch size and number of processors; it returns only after every piece it handed out has finished, and the objects it shares with the workers stay alive until then. Tasks pushed to the lock-free task stack are each taken by exactly one thread: none is lost, duplicated or reused while another thread may still follow it (ABA). A sleeping worker is woken when there is work. The same holds for the parallel loops in generated code.',
     ['schedules', 'inputs'], 'every interleaving of any number of threads pushing, popping and running tasks; all range lengths and batch sizes (at least 1); any number of processors',
     'A lost, doubled or late piece needs a particular interleaving of a few instructions or a batch size that does not divide the range; tests run a few loops on one machine.',
     ['include/par/parfor.cpp', 'include/par/parfor.hpp', 'include/lockfree/stack.hpp', 'lib/par.fu', 'src/codegen.fu', 'src/codegen.fu.cpp', 'src/cli.fu.cpp'],
     [('batch arithmetic', 'include/par/parfor.cpp, parfor.hpp'), ('completion counting', 'include/par/parfor.cpp Task, worker loop'), ('task stack', 'include/lockfree/stack.hpp'), ('generated loops', 'src/codegen.fu parallel_for; *.fu.cpp uses of fu::parallel_for')],
     'path enumeration over LLVM IR with loops entered in an arbitrary iteration, value numbering to polynomial normal forms and bit provenance, and rules on the atomic protocol (claims, completion counts, tag counters) of every path',
     'Decides the sequential arithmetic of splitting, the per-path protocol of the shared counters and the ABA tag, not a model of all interleavings. Batch size is at least one by contract; waking a worker is checked as a path rule.')
prop('C05', 'Memory handed between threads is ordered: share counts and tasks',
     'Every hand-over of memory between threads in the runtime is ordered. A task pushed by one thread is fully visible to the thread that takes it, and the results of a task are visible to the thread that waits for it. A vector block that one thread stops using is freed or overwritten in place by another only after everything the first thread did with it; shares are added and dropped atomically, so a block is released by exactly one thread. No shared mutable field of the runtime is accessed non-atomically without the lock or hand-over that protects it.',
     ['schedules'], 'every interleaving and every reordering the C++ memory model permits, on any number of threads',
     'On the x86 machines the tests run on, most missing orderings have no visible effect, and the remaining ones need a window of a few instructions.',
     ['include/fu/mem/arc.h', 'include/fu/vec.h', 'include/lockfree/stack.hpp', 'include/par/parfor.cpp'],
     [('reference count', 'include/fu/mem/arc.h incr, decr, unique'), ('task stack', 'include/lockfree/stack.hpp push, try_pop'), ('task completion', 'include/par/parfor.cpp')],
     'per-path ordering obligations over LLVM IR: each publication, claim and completion is traced to its atomic operation (or following fence) and its memory order compared with the one the hand-over needs',
     'Checks sufficient orders at each hand-over point; it does not enumerate executions of the memory model.')
prop('C08', 'Blocks are as large as reported; an impossible allocation stops the program',
     'For every requested byte count the block allocator either returns a block whose reported usable size is at least the request, whose memory really holds that many bytes behind its header, aligned for any element, with a share count of zero (a single owner); or it ends the process, which it does for requests beyond what a 32-bit size can report and when the system is out of memory - never returning a block smaller than it reports, and never touching memory it did not get. Releasing a block gives back exactly the pointer it was allocated with, once, without touching bytes outside it, and balances the leak accounting. Element counts computed from a block never exceed what it holds.',
     ['inputs', 'configurations', 'fault_sequences'], 'every requested size up to 2^62 bytes, every element size and count, malloc succeeding or failing, debug, release and leak-detecting builds',
     'Tests never allocate gigabytes nor make malloc fail; wrong rounding shows only at sizes around powers of two.',
     ['include/fu/mem/arc.cpp', 'include/fu/mem/arc.h', 'include/fu/vec.h'],
     [('size rounding', 'include/fu/mem/arc.cpp fu_POW2MEM_RoundUp, next_pow2'), ('allocation and release', 'include/fu/mem/arc.cpp fu_ARC_ALLOC, fu_ARC_DEALLOC, fu_UNIQ_ALLOC, fu_UNIQ_DEALLOC'), ('element counts', 'include/fu/mem/arc.h fu_ALLOC')],
     'interval and known-bits abstract interpretation of the allocator LLVM IR over a partition of all request sizes',
     'Request sizes are split at and around every power of two; each cell is interpreted once and split further when undecided, so every size is covered. Nothing is executed.')

prop('C09', 'Build products appear whole under their final names',
     'Object files, executables, generated C++ and cached results that the compiler leaves in its cache or output directories become visible under their final name only by renaming a finished temporary: they are written, compiled or linked under a fresh, randomly named temporary, and the rename happens only after the step that produces the temporary succeeded. A reader or a concurrent build therefore never sees a missing, half-written or failed product where a good one was, a published file is never removed or modified in place, two builds running at once never write to the same temporary, and file::write leaves exactly the bytes it was given - nothing of the old content, nothing missing.',
     ['schedules', 'crash_points', 'fault_sequences'], 'every failure or crash point of a build, every interleaving of concurrent builds sharing a cache, every split of a write into partial writes',
     'A test sees a build that ran alone to its end; the window between two system calls, a crash inside it and a short write do not occur in tests.',
     ['src/build.fu.cpp', 'src/build.fu', 'lib/file.fu.cpp', 'lib/file.fu', 'lib/rand.fu.cpp'],
     [('atomic write', 'src/build.fu.cpp atomic_write'), ('temporary names', 'src/build.fu.cpp tmpfile, lib/rand.fu.cpp next_u64'), ('object files', 'src/build.fu.cpp buildFile'), ('link and install', 'src/build.fu.cpp build'), ('file contents', 'lib/file.fu.cpp write')],
     'string-provenance and typestate abstract interpretation of the driver over LLVM IR; linear-form analysis of the write loop; shape of the random generator update; bit-level provenance of names and seeds',
     'The committed bootstrap driver is analysed; strings are abstracted to the fresh names they contain. Nothing is executed.')

prop('C10', 'Comparison is one total order, equality is identity, searches are exact',
     'The three-way comparison <=> generated for scalars, structures, strings and arrays orders any two values by their first difference in one fixed order of the parts: it returns 0 exactly when every part of the two values is equal, never because of lengths, addresses, integer truncation or overflow, and swapping the operands swaps the sign. == and != on strings and arrays hold exactly when lengths and all elements agree, whatever storage they share; <, >, <=, >= agree with the byte-wise order, a proper prefix coming first. find returns the first position at or after the start at which the item occurs and -1 only if there is none; has, starts and ends answer accordingly. No comparison reads beyond its operands.',
     ['inputs'], 'every pair of values, every length including empty, every position of the first difference, every aliasing of the operands',
     'A test compares a few samples; an order that is inconsistent for one pair of lengths, or an equality that ignores one field or a tail, corrupts sorted sets and deduplication only when such a pair occurs.',
     ['include/fu/vec/LEGACY_cmp.h', 'include/fu/vec/LEGACY_find.h', 'src/solver.fu.cpp', 'src/lexer.fu.cpp', 'src/codegen.fu.cpp', 'lib/path.fu.cpp'],
     [('runtime ==, <, strcmp', 'include/fu/vec/LEGACY_cmp.h'), ('runtime find', 'include/fu/vec/LEGACY_find.h'), ('generated comparators', 'src/solver.fu.cpp x3Cx3E (<=>)'), ('starts/ends/find/has', 'src/*.fu.cpp, lib/*.fu.cpp')],
     'path-splitting abstract interpretation over uninterpreted contents with linear facts; loops summarised by what holds of all earlier elements; every return judged against the facts of its path',
     'Comparators of elements are judged separately and assumed here (assume-guarantee). Binary-search has and BitSet has are reported undecided. Nothing is executed.')

prop('C11', 'Sorted sets and maps find, insert, replace and remove the right entry',
     'The sets and maps kept as ascending key arrays (with parallel value arrays): a lookup reports an entry exactly when its key is in the array and yields the value stored under that key; adding an absent key inserts that key once, at the position that keeps the array ascending, and its value at the same position of the value array; adding a present key inserts nothing and, for maps, replaces exactly its value; removing deletes exactly the matching entry from every parallel array. Searches terminate, and the result tells truthfully whether the key was there.',
     ['inputs', 'histories'], 'every number of entries including none, every position of the key before, between, on and after the entries',
     'A wrong bound or a shifted insertion shows only for particular sizes and positions, and a disordered array makes later, unrelated lookups fail.',
     ['src/flat.fu', 'src/solver.fu.cpp', 'src/build.fu.cpp', 'src/parser.fu.cpp', 'src/context.fu.cpp', 'src/codegen.fu.cpp', 'src/lifetime.fu.cpp'],
     [('binary search', 'src/flat.fu bfind; every has/add/rem/get/update/set/bfind of src/*.fu.cpp'), ('insertion and removal', 'src/solver.fu.cpp update, add, rem'), ('results', 'src/solver.fu.cpp get, ref')],
     'loop-invariant templates for the search interval proved by variable elimination over uninterpreted elements; path-wise judgement of every insertion, removal and result',
     'Assumes the comparator is a total order (C10), the array ascending on entry and fewer than 2^30 entries. Nothing is executed.')

prop('C12', 'A cached build product is reused only for the inputs that produced it',
     'The compiler caches object files and executables under names computed from what produced them, and skips compiling or linking when the file exists. Everything that goes into such a command - compiler and linker flags, the generated code, the objects, include directories, libraries to link - determines the name in full, so that two builds differing in any of it never share a cached file. A file gets its cached name only when the command that wrote it succeeded, and a step is skipped only when a non-empty file of exactly that name exists: a missing, empty or failed product is never taken for a finished one.',
     ['inputs', 'histories', 'fault_sequences'], 'every pair of builds sharing a cache directory, every combination of flags, sources and libraries, every leftover of an interrupted or failed build',
     'Tests start from an empty cache or rebuild the same thing; a stale hit needs two builds that differ in just the input the name forgets.',
     ['src/build.fu.cpp', 'src/build.fu', 'lib/tea.fu.cpp'],
     [('names of cached files', 'src/build.fu.cpp build (GCChash, Fs, F_exe)'), ('object compilation', 'src/build.fu.cpp buildFile, CACHE_objFileAvailable'), ('link', 'src/build.fu.cpp build')],
     'interprocedural value-provenance (information flow) over the inlined driver: inputs of each command against inputs of the name; outcome walks with constant propagation for failure and reuse',
     'Assumes the 64-bit digest of the name has no collisions and that toolchain and system headers stay the same. Whether a cached run result is still right is not covered. Nothing is executed.')

prop('C13', 'Hot reload installs only working code and loses no request',
     'A program with hot reload enabled can call every registered function at any time: its slot holds the built-in fallback or a function found, under the symbol it was registered with, in a library that was loaded successfully - never null, never a function registered for another slot. A reload that fails, because the new library does not load or lacks a symbol, leaves the previous function in place; libraries whose code may be running are not unloaded. On every reload each library is tried and every registered function looked up in each library that loaded, whatever failed before it. The library file is left under its own name, whether or not loading succeeded. A library that was loaded before is found under its own path and opened under a fresh name, so that the new code and not the loaded copy is what is opened. In manual mode the signal only leaves a request, and a signal that arrives during a reload causes another one. Every signal reaches the registered callbacks, and a handler for the reload signal that the program already had when the first library was registered stays in place.',
     ['inputs', 'schedules', 'fault_sequences', 'histories'], 'every number of libraries and registered functions, every combination of failed loads, missing symbols and failed renames, a signal at any point',
     'Tests do not exercise reload at all; a failed load, a missing symbol, or a second signal during a reload are rare and crash the running program much later.',
     ['include/dl/hotswap.cpp', 'include/dl/hotswap.hpp'],
     [('reload', 'include/dl/hotswap.cpp try_reload, doReload'), ('registration', 'include/dl/hotswap.cpp hotswap_init'), ('requests', 'include/dl/hotswap.cpp onSIGUSR1_reloadLibs, hotswap_here, onManualReload')],
     'path enumeration over LLVM IR of the entry points with all helpers inlined and loops entered in an arbitrary iteration; typestate of handles, slots and the renamed file; pass-completeness of the loops',
     'Not claimed: safety of reloading inside the signal handler in automatic mode (documented in the source as a TODO), and registration after the first reload. Nothing is executed.')


prop('C14', 'Deferred blocks run exactly on the exits they were declared for',
     'In a scope that declares blocks with the runtime macros fu_DEFER, fu_DEFER_IF_ERR and fu_DEFER_IF_OK: when control leaves the scope, every block whose declaration was reached runs, each at most once and in reverse order of declaration - plain ones on every exit, if-err ones exactly when an exception leaves the scope, if-ok ones exactly when none does (end of the scope or return). Exceptions already being unwound when the scope was entered (a scope inside a destructor or a deferred block) and exceptions caught inside the scope make no difference. A block sees and can change the variables of its scope as they are when it runs.',
     ['inputs', 'histories'], 'every exit of a scope (end, return, exception at any step), nested scopes, caught exceptions, and any number of exceptions already in flight on entry',
     'Tests leave scopes normally or with one exception in flight; cleanup that runs during another unwinding, or after a recovered error, is where the counting goes wrong.',
     ['include/fu/defer.h'],
     [('guards', 'include/fu/defer.h defer, defer_if_err, defer_if_ok'), ('macros', 'include/fu/defer.h fu_DEFER, fu_DEFER_IF_ERR, fu_DEFER_IF_OK')],
     'path enumeration over LLVM IR of scopes that use the macros, exception edges included, with a symbolic number of exceptions in flight; the event sequences are compared with those of a reference semantics of scopes',
     'The guards are judged in seven scopes of different shape (plain, early return, nested, recovery, outer variables); that the compiler emits the right macro for a defer statement is not part of the claim. Nothing is executed.')

prop('C15', 'Numbers, printed lines and panic messages are written out exactly and in full',
     'For every number the text made by the runtime (fu::u64dec, i64dec, f64dec, f32dec, booldec) is its whole decimal text: integers of every size have all their digits in order, no leading zero, and a sign exactly when negative, the smallest one included; a floating point number has exactly the characters of %f, however large it is, and nothing after them; no conversion reads or writes outside its buffer. println writes every byte of every part, in order, zero bytes included, then one newline. A panic carries its whole message, terminated, and does not return.',
     ['inputs'], 'every 64-bit integer, every double, parts of every length and content, every message',
     'Tests print small numbers and short plain text; the smallest integer, huge floats, embedded zero bytes and numbers above 2^32 never appear.',
     ['include/fu/decstr.cpp', 'include/fu/print.cpp', 'include/fu/never.cpp'],
     [('numbers', 'include/fu/decstr.cpp'), ('lines', 'include/fu/print.cpp fu::println'), ('panics', 'include/fu/never.cpp fu::fail')],
     'path enumeration over LLVM IR; loop invariant of the digit loops checked per step, with stop conditions as sets of numbers; buffer sizes and copied lengths evaluated for every possible length; ordered effects of println and fail',
     'What the C library prints for %f, and what it does when writing fails, are assumed. Nothing is executed.')
prop('N01', 'A program the compiler accepts never touches memory it does not own',
     'For every program the compiler accepts, no execution of the generated code reads or writes through a reference, slice or view whose storage was freed, moved from, resized or overwritten by a type-changing write since the reference was taken, and no value is read after it was moved out.',
     ['inputs', 'histories'], 'every accepted source program and every execution of it',
     'Tests check some hundreds of programs for acceptance or rejection; soundness speaks of all programs.',
     ['src/solver.fu', 'src/lifetime.fu', 'src/effects.fu', 'src/codegen.fu'],
     [('lifetimes and invalidation', 'src/lifetime.fu, src/solver.fu')])
prop('N02', 'The generated C++ computes what the source program says',
     'For every accepted program the generated C++ has the meaning of the source: operands, arguments and initialisers are evaluated once and in source order, short-circuit operators evaluate only what decides them, loops, labelled breaks, returns and deferred blocks transfer control as written, implicit moves and copies leave observable values unchanged.',
     ['inputs'], 'every accepted program and every execution of it',
     'Tests compare outputs of a fixed set of programs.',
     ['src/codegen.fu', 'src/cpp.fu', 'src/solver.fu'],
     [('lowering', 'src/codegen.fu'), ('emission', 'src/cpp.fu')])
prop('N03', 'Compilation is deterministic and independent of declaration and module order',
     'Compiling the same sources twice, with modules discovered in any order and independent declarations in any order, gives the same acceptance, the same errors, and generated code of the same meaning.',
     ['inputs', 'schedules'], 'every program, every permutation of independent declarations, every order of discovery',
     'A test compiles each program in one order.',
     ['src/solver.fu', 'src/compiler.fu', 'src/module.fu'],
     [('call resolution', 'src/solver.fu'), ('module order', 'src/compiler.fu')])
prop('N04', 'An incremental rebuild gives the same program as a clean build',
     'In watch mode, after any sequence of edits, the modules that are reused together with those that are compiled again give the same result as a compilation from scratch of the final sources.',
     ['histories'], 'every history of edits to every set of modules',
     'Tests never edit sources between two compilations in the same process.',
     ['src/cli.fu', 'src/compiler.fu', 'src/context.fu'],
     [('reuse of modules', 'src/compiler.fu, src/context.fu')])
prop('N05', 'The compiler ends on every input, with a program or with a located error',
     'For every input text the compiler terminates and either succeeds or reports at least one error at a position inside the sources; it never crashes, hangs or reports an internal inconsistency.',
     ['inputs'], 'every sequence of bytes as source text, every set of modules including cyclic imports',
     'Tests cover some hundreds of programs, nearly all of them well formed.',
     ['src/lexer.fu', 'src/parser.fu', 'src/solver.fu'],
     [('errors', 'src/fail.fu'), ('fixpoint of recursive functions', 'src/solver.fu')])
prop('N06', 'Distinct inputs never share a content hash',
     'Two types, modules or build inputs that differ never get the same canonical hash, so that no cached product or symbol name stands for two different things.',
     ['inputs'], 'every pair of inputs',
     'Collisions of a 64-bit digest are not found by sampling.',
     ['src/solver.fu', 'lib/tea.fu', 'src/build.fu'],
     [('digest', 'lib/tea.fu')])
prop('N07', 'Every posted task and every child exit is eventually handled',
     'A task handed to the task stack runs eventually, a parallel loop returns eventually, and the event loop calls the callback of every child that exits, whatever the scheduling.',
     ['schedules', 'histories'], 'every fair schedule of the threads and every order of events',
     'Tests see the schedules that happen to occur.',
     ['include/par/parfor.cpp', 'lib/ev/Loop.fu'],
     [('workers', 'include/par'), ('event loop', 'lib/ev/Loop.fu')])

na('N01', 'Soundness of the borrow rules is a metatheorem about the language (all programs, all executions); it needs a formal semantics and a proof about a 10k-line solver. No syntactic or dataflow rule over the solver decides it; its runtime side (containers release and access memory correctly) is claimed as C01, C02 and C04.')
na('N02', 'Semantic preservation of a code generator quantifies over programs; deciding it means relating source and target semantics, translation validation or compiler proof, not analysis of the compiler text. The runtime the generated code rests on is claimed (C01 to C05, C08, C10, C11, C14, C15).')
na('N03', 'Acceptance depends on the fixpoint order of a mutually recursive solver; independence of that order is a confluence property over programs that no static argument in reach bounds. A shallow rule (no iteration over unordered containers, no clock or address in decisions) would hold trivially here, as the compiler has no hash tables.')
na('N04', 'Equality of an incremental and a clean result relates whole runs over histories of edits; the invalidation logic keeps no explicit dependency relation that a rule could check for completeness. Reuse of cached objects across runs is claimed as C12.')
na('N05', 'Termination and absence of internal errors on arbitrary text depend on recursion through the solver whose measure is not in the code; static analysis in reach yields only alarms on every BUG() call. Bounds of container accesses inside the compiler are not claimed either, as indexes come from run-time tables.')
na('N06', 'A finite digest has collisions by counting, so the statement is false as written for any hash and only holds with high probability; probability is not decided from source. That the hash covers all inputs is claimed as C12.')
na('N07', 'Liveness under fair scheduling: the static rules of C03 show that a wakeup is posted after every push and that each index is claimed once, but eventual progress depends on scheduler fairness and kernel behaviour which the source does not determine.')
