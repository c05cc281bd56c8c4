# ---------------------------------------------------------------- claimed
prop('C01', 'A failed step is never reported as success',
     'When any step of a library operation or application command fails (memory cannot be obtained, a file cannot be opened, written or '
     'closed, input is malformed, a precondition or internal consistency test fails), the operation that needed the step reports failure '
     'to its own caller, all the way up. No failure status is dropped, overwritten, inverted, or turned into success or into a '
     '"not embeddable" result.',
     ['fault_sequences', 'inputs'],
     'For every call that can fail, in every function of the library and application, and every path that continues from its failure to the return of the enclosing function.',
     'The tests never make an allocation, a write or an internal step fail, so no failure path is executed at all; there are over 650 such call sites.',
     ['c/graphLib', 'c/planarityApp'],
     [('status convention OK/NOTOK/NONEMBEDDABLE', 'c/graphLib/lowLevelUtils/appconst.h'),
      ('propagation at each call site', 'every function that returns a status'),
      ('function table dispatch', 'c/graphLib/extensionSystem/graphFunctionTable.h')],
     'path-sensitive dataflow (property simulation) over LLVM IR: each fallible call is made to fail, every feasible continuation must return failure',
     'All functions, all call sites, direct and through the function table; loops by bounded-state joins (over-approximation). Trusts the table of '
     'return conventions in lib/kinds.py and the reviewed exceptions in checks/c01.py.')

prop('C02', 'No null pointer is dereferenced after an allocation, open or lookup fails',
     'Running out of memory, or failing to open a file or to construct an object, never makes the library or application use the missing '
     'object. The null result is recognised before anything is read from or written through it, in the function that made the request and '
     'in every function it is passed to.',
     ['fault_sequences'],
     'For every call whose result can be null, and every path from that call.',
     'Allocation and open failures do not happen in the test runs; every one of the roughly hundred sites needs its own fault.',
     ['c/graphLib', 'c/planarityApp'],
     [('allocation sites', 'gp_New, _InitGraph, LCNew, sp_New, sb_New, sf_New, *_CreateStructures, *_DupContext, iterators'),
      ('null tests', 'each caller')],
     'path-sensitive null-ness dataflow over LLVM IR with interprocedural dereference summaries',
     'All nullable call sites; every feasible path after a null result. External functions dereference the arguments listed in lib/fail.py.')

prop('C03', 'Memory and files are never leaked, on success or failure paths',
     'Every block of memory, file and object an operation obtains is released exactly when its owner is done with it: on every path, including '
     'every failure path, it is freed or closed, handed to the caller, or stored in an object that releases it. Freeing an object (a graph, an '
     'extension, an iterator, a buffer, a stack) releases everything the object owns.',
     ['fault_sequences', 'inputs'],
     'For every acquisition site and every path from it to the return of the function; for every object-freeing function and every owned field.',
     'A leak changes no result; the tests check results only, and the failure paths never run.',
     ['c/graphLib', 'c/planarityApp'],
     [('acquisition and release', 'every function that calls malloc, calloc, realloc, strdup, fopen or a constructor'),
      ('destructors', 'gp_Free, _ClearGraph, *_FreeContext, sb_Free, sf_Free, sp_Free, LCFree, freeG6ReadIterator, freeG6WriteIterator')],
     'path-sensitive ownership dataflow over LLVM IR with inferred ownership-transfer summaries',
     'All acquisition sites and destructors; every feasible path (bounded-state joins over-approximate). Ownership of a field is inferred from the existence of a function that frees it.')

prop('C04', 'Nothing is used, freed twice or left dangling after it has been released',
     'Once a block, file or object has been released (including by a failed or completed reallocation, or by a routine that takes ownership and frees it), '
     'no path reads or writes it, releases it again, returns it, or leaves it stored in an object or output variable that the caller still holds. '
     'A copied object never shares owned storage with the original.',
     ['fault_sequences', 'inputs'],
     'For every release site and every path after it; for every whole-object copy and every owned field.',
     'Stale pointers usually still read the old contents, so tests pass; the failure paths are never run.',
     ['c/graphLib', 'c/planarityApp'],
     [('release sites', 'every function that frees, closes or reallocates'), ('object copies', '*_DupContext, gp_CopyGraph')],
     'path-sensitive typestate dataflow (live/released) over LLVM IR with inferred release summaries and alias renaming',
     'All release sites; aliases known on the path are tracked by symbol, aliases created through separate heap loads of unrelated cells are not.')


prop('C15', 'The library keeps no hidden state and has no process-wide effects',
     'Operations on different graphs, readers and writers are independent: apart from the quiet-mode switch, the extension type identifiers and the debug log, '
     'no library operation stores anything outside the objects and buffers it is given. The library never ends the process and never changes its '
     'environment, working directory, signal handling, locale or random seed.',
     ['histories', 'inputs'],
     'For every sequence of operations on any number of graphs, readers and writers.',
     'Tests use one graph at a time in fresh processes; state carried from one object to the next shows only in particular interleaved histories.',
     ['c/graphLib'],
     [('static storage', 'every global and function-static variable of c/graphLib'), ('external calls', 'every call out of c/graphLib')],
     'effect analysis over LLVM IR: enumeration of every store to static storage and every external call in the library',
     'All library functions; addresses of globals followed through SSA and call arguments. External effects per a reviewed list.')

prop('C16', 'Results do not depend on addresses, time or chance',
     'The same operations on the same graph give the same result in every run. Nothing the library computes depends on where memory was allocated '
     '(pointer values used as numbers, ordered or hashed), on the time, on the environment or on random numbers; only the functions that create random graphs draw '
     'random numbers.',
     ['inputs', 'histories'],
     'For every library function and every run.',
     'A test compares one run with one expected output; a dependence on addresses or time may appear on another machine or run.',
     ['c/graphLib'],
     [('sources of nondeterminism', 'every library function'), ('random graph generators', 'c/graphLib/graphUtils.c')],
     'effect and dataflow (taint) analysis over LLVM IR: nondeterminism sources, pointer-to-number conversions and pointer order comparisons',
     'All library functions, all call sites. Uninitialised memory is covered by C05, hidden state by C15.')

prop('C21', 'Quiet mode is silent',
     'When quiet mode is on, neither the library nor the application writes anything to standard output or standard error, whatever succeeds or fails, '
     'unless the caller named that stream as the destination of the result.',
     ['inputs', 'fault_sequences'],
     'For every write to standard output or standard error and every path that reaches it.',
     'Tests do not capture the console of failing quiet runs.',
     ['c/graphLib', 'c/planarityApp'],
     [('message routines', 'c/planarityApp/planarityUtils.c'), ('quiet mode setting', 'c/graphLib/lowLevelUtils/apiutils.c'), ('console progress reports', 'c/planarityApp/planarityRandomGraphs.c')],
     'path-sensitive guard analysis over LLVM IR of every write to a console stream, with inferred stream-parameter summaries',
     'All console writes in the program on all feasible paths, including streams passed to callees.')


prop('C12', 'A reinitialised graph is the same as a newly initialised one',
     'Reinitialising a graph gives every part of it that operations change (all vertex, edge and face records, edge counts, free-edge list, work stack, '
     'lists, status flags, and the state kept by each attached extension) the value it has right after initialisation, over the whole extent of each array. '
     'So nothing computed on an earlier graph influences later results.',
     ['histories', 'inputs'],
     'For every field of the graph and of each extension and every history of operations before the reinitialisation.',
     'Left-over state matters only in particular sequences: one graph processed, reset, and another processed with the same object.',
     ['c/graphLib'],
     [('initialisation', '_InitGraph, gp_New, extension attachment'), ('reinitialisation', '_ReinitializeGraph and the extension overloads of fpReinitializeGraph'),
      ('operations that change fields', 'every other function of c/graphLib')],
     'must-effect analysis over LLVM IR (dominating stores, memsets and counting-loop ranges on access paths) comparing initialisation with reinitialisation, against the may-store set of all operations',
     'All fields of the graph and its extensions, including owned arrays, stacks and lists. Array extents compared as linear forms of the order and capacity fields; values compared symbolically.')


prop('C17', 'Extension overloads are installed, chained, copied and removed correctly',
     'Every overridable operation of a graph goes through the function table of that graph, which always holds the default function or the newest overload of each entry. '
     'Attaching an extension saves the replaced entries so each overload can call the one it replaced; removing an extension, in any order, restores exactly the chain that '
     'existed without it; releasing all extensions restores all defaults. A copied graph has the same chains, independent of the original.',
     ['histories', 'inputs'],
     'For every table entry, every extension, and every order of attaching, removing and copying.',
     'Tests attach a single extension and never remove them in another order; a wrong entry is seen only when that operation is used with that set of extensions.',
     ['c/graphLib/extensionSystem', 'c/graphLib'],
     [('function table', 'c/graphLib/extensionSystem/graphFunctionTable.h'), ('attach, remove, copy', 'c/graphLib/extensionSystem/graphExtensions.c'),
      ('overloads', 'c/graphLib/homeomorphSearch/*_Extensions.c, c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c'), ('call sites', 'every call through a function table')],
     'call-graph, dominance and must-effect analysis over LLVM IR of the function tables: defaults, overloads, chain calls, table loops, direct-call bypasses',
     'All table entries, overloads, dispatch sites and table loops. The list surgery of removal is checked by shape (loop range, exits, order), not by a heap proof.')

prop('C18', 'An attached extension leaves other algorithms and operations unchanged',
     'When the algorithm being run is not the one an extension implements, each step the extension overloads does exactly what it would do without the extension: the overridden step '
     'is carried out once, with the same arguments, its result is returned, and nothing else is changed. Graph initialisation, reinitialisation, sorting, reading and writing always include '
     'the standard step, whichever extensions are attached.',
     ['histories', 'inputs'],
     'For every overload of every extension, every algorithm mode other than its own, and every path.',
     'Tests attach only the extension they then use.',
     ['c/graphLib/homeomorphSearch', 'c/graphLib/planarityRelated'],
     [('overloads', 'c/graphLib/homeomorphSearch/*_Extensions.c, c/graphLib/planarityRelated/graphDrawPlanar_Extensions.c'), ('algorithm modes', 'EMBEDFLAGS_* in c/graphLib/graph.h')],
     'path-sensitive simulation over LLVM IR of each overload with the mode fixed, counting base-step calls and comparing arguments, result and side effects',
     'All overloads in all modes defined in graph.h; the refusal of the search extensions to grow the edge capacity is a reviewed exception.')


prop('C13', 'A copied or duplicated graph carries over all of the state',
     'Copying one graph onto another, or duplicating it, carries over everything that operations on the original may have changed: vertices, edges, flags, embedding state, '
     'lists, stacks and the state of each attached extension, over the whole of each record array. Records the destination has beyond those of the original are left in their '
     'initial state. Copying only the adjacency lists carries over all links, neighbours, the edge count and the list of free edge records.',
     ['inputs', 'histories'],
     'For every graph, capacity, history of operations before the copy, and set of attached extensions.',
     'A field or range that is not copied matters only when the original is copied in a state that uses it, which tests reach for a few states.',
     ['c/graphLib'],
     [('copy and duplicate', 'gp_CopyGraph, gp_DupGraph, gp_CopyAdjacencyLists in c/graphLib/graphUtils.c'),
      ('extension state', '*_DupContext in c/graphLib/**/*_Extensions.c'), ('stacks and lists', 'c/graphLib/lowLevelUtils')],
     'must-effect analysis over LLVM IR: field-by-field source matching and symbolic range coverage against the set of fields any operation stores',
     'All fields of the graph and of four extension contexts. Both graphs have the same order (tested by the copy itself).')


prop('C05', 'Nothing uninitialised is ever used',
     'No operation reads a local variable, buffer or result that has not been given a value on the path taken: a value from a formatted read is used only after the read was '
     'tested to have converted it, a result delivered through a reference argument is used only when the call reported that it delivered it, and a text buffer is used only '
     'after something was put into it.',
     ['inputs', 'fault_sequences'],
     'For every local variable, local array and reference argument, every outcome of every call that should set it, and every path from there to a use.',
     'Uninitialised storage usually happens to hold a harmless value in a test run; malformed input and failing steps, where values are not delivered, are hardly tested.',
     ['c/graphLib', 'c/planarityApp'],
     [('formatted reads', 'graphIO.c, planarityMenu.c, planaritySpecificGraph.c, strbuf.c'), ('reference arguments', 'gp_FindExtension, gp_GetDownEdge..., getters of iterators'),
      ('local buffers', 'planarityUtils.c, planarityTransformGraph.c, graphIO.c')],
     'path-sensitive definite-initialisation dataflow over LLVM IR with per-outcome summaries of reference arguments and conversion-count forks of formatted reads',
     'Scalars, pointers and character arrays held in local variables and reference arguments; fields of heap records are covered where a record is created.')

prop('C09', 'Missing arguments are refused, not used',
     'A public operation given NULL for a graph, buffer, stream, iterator, name or result argument that its contract lets be absent or invalid recognises this before using it, '
     'and then reports failure or, for the operations that release or skip an absent object, does nothing.',
     ['inputs'],
     'For each pointer argument of each public operation in the contract table, every path of the operation with that argument NULL and every value of the others.',
     'Tests call the operations with valid arguments; each refused argument needs a call of its own.',
     ['c/graphLib'],
     [('argument tests', 'the first statements of the public operations in c/graphLib/**')],
     'path-sensitive null-ness dataflow over LLVM IR against a table of 93 argument contracts',
     'The contract table in checks/c09.py. Operations that document no tolerance for NULL are not included.')


prop('C06', 'Numbers and arguments from outside are checked before use',
     'A number read from a file, a text, the console or the command line is used as an array index, a size or a vertex only after it was tested against both the lowest and '
     'the highest allowed value, and positions stored in a graph record while reading are tested before reading is reported successful. A command line argument is used only when '
     'the argument count says it exists, and a character of it only when the argument cannot have ended before it.',
     ['inputs'],
     'For every number read from outside, every use it reaches, and every path between; for every number of command line arguments.',
     'Tests read well-formed files and pass complete command lines; each missing bound needs its own malformed input, and an out-of-range access may go unnoticed even then.',
     ['c/graphLib/io', 'c/graphLib/planarityRelated', 'c/planarityApp'],
     [('graph readers', 'graphIO.c, g6-read-iterator.c'), ('positions of drawings', '_DrawPlanar_ReadPostprocess'), ('command line', 'planarityCommandLine.c, planarity.c')],
     'taint analysis from formatted reads, character reads and argv to index, size and vertex uses, with path-sensitive interval and difference bounds over LLVM IR',
     'All formatted and character reads; interprocedural through unbounded arguments; all reads of argv in the functions the command line is handed to.')


prop('C08', 'Sizes that grow with the square of the graph never wrap around',
     'Quantities that grow with the square of the number of vertices (numbers of possible edges, arc capacities, lengths of .g6 encodings and positions in them, sizes of drawings) '
     'are computed in arithmetic wide enough that they never wrap around, and are put into a narrower number only after being tested, capped or limited to fit. Graph orders and arc '
     'capacities for which the sizes of arrays and stacks would not fit are refused.',
     ['inputs'],
     'For every product, running total and narrowing of such quantities, for every graph order and arc capacity the library accepts.',
     'Wrap-around starts above 46340 vertices (65536 for halved products); test graphs have far fewer, and a graph of that size with enough edges is too large for a unit test.',
     ['c/graphLib', 'c/planarityApp/planarityTestAllGraphs.c'],
     [('limits', 'gp_InitGraph, gp_EnsureArcCapacity, _getNumCharsForGraphOrder, _getGraphOrder'), ('products', 'gp_DynamicAddEdge, gp_CreateRandomGraph(Ex), g6-api-utilities.c, testAllGraphs'),
      ('drawing size', '_RenderToString')],
     'width and interval analysis over LLVM IR: quadratic-size taint, path-sensitive range tests at products and narrowings, interval evaluation under the limits the entry points enforce',
     'All products of two variables, all narrowings of values derived from them, all sizes computed from order or capacity.')


prop('C30', 'Reading stops at the end of the input',
     'No loop that reads from a file, a text or the console goes round again once nothing more can be read or what is there cannot be converted; the operation ends, with a failure '
     'if it needed the missing input. Loops that scan a text stop at its end. The reading functions and the graph iterator report the end of a file and of a text.',
     ['inputs'],
     'For every read inside a loop and every point at which the input ends or turns malformed; for every loop that advances over a text.',
     'Test inputs are complete, and the interactive menu is not run by the tests at all; each place where the input can end needs its own truncated input, and a failure is a run that never ends.',
     ['c/graphLib/io', 'c/planarityApp'],
     [('console loops', 'planarityMenu.c'), ('file loops', 'graphIO.c, planarityUtils.c, planarityTestAllGraphs.c'), ('end of input', 'sf_getc, sf_fgets, readGraphUsingG6ReadIterator'),
      ('text loops', 'strbuf.c')],
     'typestate analysis over LLVM IR: a stream at its end stays there, and a read in a loop must not be reached again after it failed; end-of-text simulation of character loops',
     'All reads in loops of all functions; loops left at a constant count are exempt.')


prop('C31', 'Call depth and stack use do not grow with the graph',
     'The depth of nested calls and the stack space an operation uses are bounded by the program text, whatever the size and shape of the graph, file or text it works on. '
     'No routine calls itself, directly or through other routines or overridable operations, once per vertex, edge, component or line, and none takes a block of run-time size from the stack; '
     'traversals keep their pending work in heap storage.',
     ['inputs'],
     'For every function and every cycle of calls possible in the program, for graphs of any size.',
     'Recursion is harmless on the small graphs of the tests; it overflows the stack only on deep inputs of millions of vertices.',
     ['c/graphLib', 'c/planarityApp'],
     [('traversals', 'gp_CreateDFSTree, _WalkUp, _WalkDown, _EmbedPostprocess, _MarkHighestXYPath, _OrientVerticesInBicomp'), ('bounded re-entry', '_K4Search_HandleBlockedBicomp, _ContractEdge, _IdentifyVertices')],
     'call graph analysis over LLVM IR (direct calls, function table, callbacks): each cycle must be cut by a proven busy mark or by the reviewed contract/identify rule; no run-time sized stack block',
     'Whole program. Chains of overloads are as long as the list of attached extensions. Frame sizes themselves are constants and are not summed up.')


prop('C27', 'Queries, writers, copies and integrity checks leave the graph unchanged',
     'Neighbour, degree, capacity and extension queries, the writers of every format, the renderers of drawings and the graph write iterator leave the graph they are given exactly as it was; '
     'copying or duplicating a graph, stack or text leaves the source as it was. Testing the integrity of a result changes nothing in either graph but visited marks and the work stack, '
     'and vertices it renumbers are put back into their order on every path.',
     ['inputs', 'histories'],
     'For every such operation, every function it can reach (overloads of attached extensions included) and every path.',
     'Tests look at the output of these operations and hardly ever use the graph again afterwards; a change matters only to the next operation on it.',
     ['c/graphLib'],
     [('queries', 'gp_IsNeighbor, gp_GetNeighborEdgeRecord, gp_GetVertexDegree, gp_FindExtension'), ('writers', 'gp_Write, gp_WriteToString, writeGraphUsingG6WriteIterator, gp_DrawPlanar_RenderToFile'),
      ('copies', 'gp_CopyGraph, gp_CopyAdjacencyLists, gp_DupGraph, sp_Copy, sb_Copy'), ('integrity', 'gp_TestEmbedResultIntegrity')],
     'interprocedural may-store (mod) analysis over LLVM IR by parameter and structure field, with a parity typestate for reordering',
     'Whole library, all call targets. Storage is followed through loads and local variables; stores of integrity checks to flags are restricted to the visited bit.')


prop('C20', 'Every reported result was verified against a copy of the input graph',
     'Whenever a command of the application embeds, draws or searches a graph, it takes a copy of that graph first, and before it writes, announces, counts or returns a result it verifies that result against the '
     'unchanged copy. A result that fails verification is reported as an error, never as a result. (The command line of version 1.x, kept for compatibility, is excepted.)',
     ['inputs', 'histories'],
     'For every command, every result and every path from the embedding to a report.',
     'The verification passes on every correct run, so leaving it out, or verifying against the wrong graph or a copy taken too late, changes nothing a test can see until an embedding is wrong.',
     ['c/planarityApp'],
     [('commands', 'SpecificGraph, RandomGraph, RandomGraphs, testAllGraphs'), ('verification', 'gp_TestEmbedResultIntegrity'), ('copies', 'gp_DupGraph, gp_CopyGraph')],
     'typestate analysis (property simulation over LLVM IR): copied, embedded, verified, reported; aliases by variable and by iterator',
     'All application functions that call the embedder except the version 1.x command line. That the verification itself is right is not decided here.')


prop('C23', 'A command letter means the same algorithm, format and verdict everywhere',
     'Each algorithm letter selects, in every command, the embedding mode, the extension (attached exactly when that mode needs it), the name, the description and the verdict texts of one and the same algorithm; '
     'each output format letter selects the format it names. Letters that are not offered run nothing. The verdict printed for a result says what the result means for that algorithm.',
     ['inputs', 'configurations'],
     'For every command letter and every command that takes one.',
     'Tests run a few letters through a few commands and compare output files, not messages; a wrong pairing in the random or test-all commands is not run at all.',
     ['c/planarityApp'],
     [('letters', 'GetAlgorithmChoices, GetEmbedFlags, GetAlgorithmName, AttachAlgorithm'), ('commands', 'SpecificGraph, RandomGraph, RandomGraphs, MakeGraph, testAllGraphs, TransformGraph'), ('verdicts', 'WriteAlgorithmResults')],
     'constant propagation by property simulation over LLVM IR: each function is evaluated with the letter fixed, against a reviewed table',
     'All 6 algorithm and 3 format letters and all functions that take one; letters not offered are sampled.')


prop('C22', 'Each command line runs its command and the exit status tells the result',
     'Each documented command line, with or without -q, runs the command it names with the arguments from their documented places; a command line that lacks arguments or names no command runs nothing. The exit status is 0 after '
     'success, 1 exactly when the command found its graph not embeddable (or to contain the subgraph sought), and some other nonzero number after a failure or an unusable command line; commands that transform a graph '
     'or work through many graphs never give 1. The command line of version 1.x gives 0 for both verdicts.',
     ['inputs', 'configurations'],
     'For every documented form of the command line, every result the command can have, and every path through the commands.',
     'The tests look at output files and success; few command lines, and no failing ones, have their exit status looked at.',
     ['c/planarityApp'],
     [('command line', 'commandLine, legacyCommandLine, main'), ('commands', 'SpecificGraph, RandomGraph, RandomGraphs, testAllGraphs, TransformGraph'), ('documented forms', 'helpMessage')],
     'abstract evaluation of main with the command line processing merged into it over LLVM IR, per documented command line and per result; verdict typestate in each command',
     'A reviewed table of 89 command lines; all result values; all paths of the six commands. Abbreviated or concatenated options are not in the table.')

prop('C07', 'Text fits the buffer it is formatted, copied, appended or read into',
     'Formatting, copying, appending or reading text into a name, message, number or line buffer, into a string buffer that grows, or into a block allocated for a joined text never puts more there than fits with its terminator, '
     'whatever the file names, numbers and file contents are. A string buffer or G6 iterator never records more room than its block has, and a local buffer is used as text only when it holds a terminated text.',
     ['inputs'], 'Every path of every function that has a fixed-size text buffer, calls an operation that puts text into memory, or changes the recorded size of such a block; every length of the texts that are not limited by a test.',
     'An overrun by a few characters needs a name, number or text of a particular length, and often does nothing visible in a test.',
     ['c/planarityApp', 'c/graphLib/io', 'c/graphLib/planarityRelated'],
     [('file names', 'ConstructInputFilename, ConstructPrimaryOutputFilename, ConstructTransformationExpectedResultFilename (planarityUtils.c)'), ('messages', 'messageContents[MAXLINE + 1] with %.*s in planarityApp/*.c and the G6 iterators'),
      ('string buffer', 'sb_ConcatString, sb_Copy, sb_TakeString (strbuf.c)'), ('string or file container', 'sf_fputs, sf_fgets (strOrFile.c)'), ('line and number buffers', 'graphIO.c, graphDrawPlanar.c, graphDrawPlanar_Extensions.c')],
     'static analysis: path-sensitive upper bounds of text lengths (linear forms over lengths of unknown texts, recorded sizes and digits) compared with buffer capacities; lengths of application parameters bounded over all call sites',
     'positions inside the drawing canvas, the adjacency matrix row and the running position in the extra-data block are not text operations of this kind and are not decided here')

prop('C25', 'Edge records and adjacency lists stay consistent under every edge operation',
     'Inserting an edge, on success, raises the edge count by exactly one, takes one free pair of records (a released pair if there is one, else the next unused pair), and links each half into the list of its own endpoint, also when room has to be made first; '
     'a refused insertion changes nothing. Deleting an edge undoes this: both halves are unlinked, the records cleared, the count lowered by one, the pair made available again. '
     'Attaching, detaching, hiding, restoring and moving list nodes, also when vertices are hidden or identified and then restored, update the links of both neighbours, or of the end of the list where there is no neighbour, in both directions, and a node taken out is never left as the head of its list.',
     ['inputs', 'histories'], 'Every path through every function of the library that writes links of adjacency lists or of list collections, in every combination of present and absent neighbours.',
     'A link that is wrong in one direction only shows when the list is later walked that way, or when the node was first, last or alone in its list.',
     ['c/graphLib'],
     [('edge insertion and deletion', 'gp_AddEdge, gp_InsertEdge, gp_DeleteEdge, gp_AttachArc, gp_DetachArc (graphUtils.c)'), ('hiding and restoring', '_HideEdge, _RestoreEdge, _RestoreArc, _HideInternalEdges, _RestoreHiddenEdges (graphUtils.c)'),
      ('vertex operations', '_HideVertex, _ContractEdge, _IdentifyVertices, _RestoreVertex (graphUtils.c)'), ('list surgery', '_MergeVertex, _InvertVertex, _EmbedBackEdgeToDescendant (graphEmbed.c); K3,3 arc lists; sorting; listcoll.h')],
     'static analysis: per-path value-numbered summaries of link writes over symbolic records, checked against mutual-link obligations; composition of hide/restore and identify/restore summaries',
     'lists are assumed intact before each operation; loop effects are summarised per iteration')

prop('C32', 'Every trip round a loop makes progress towards its end',
     'On every way round every loop, something that the tests ending it look at changes: a counter, a position in a list, the amount of pending work, or what a reading call delivers. '
     'Counters compared with a limit are stepped towards it and pending work is taken off before it is looked at again; a list is walked in one direction, '
     'and a walk of a list closed into a ring ends when it is back where the ring starts.',
     ['inputs', 'histories'],
     'For every loop of the library and the program, and every way round it.',
     'A way round a loop that changes nothing hangs the operation on the one input that takes it, and tests only see the ways they happen to take.',
     ['c/graphLib', 'c/planarityApp'],
     [('list walks', 'gp_GetNextArc, gp_GetVertexNextDFSChild and the loops around them'), ('pending work', 'loops on sp_NonEmpty, sp_GetCurrentSize'), ('rings', 'walks of fwdArcList and backArcList'), ('edge scans', '_getNextInUseEdge, sb_ReadSkipInteger, gp_RemoveExtension')],
     'dataflow on LLVM IR: for each natural loop, the slice its exits depend on; a search for a cycle of blocks on which no value of the slice changes; direction of counters and list links; ring walks compare with the head of the ring',
     'Progress on each trip, not the number of trips: that a chain of links is finite follows from the well-formed lists of C25, not from this rule. Reading loops at the end of the input are C30.')

# ---------------------------------------------------------------- not applicable
na('N01', 'Embedding decides planarity and outerplanarity correctly',
   'For every simple graph, the embedder answers "embeddable" exactly when the graph is planar (or outerplanar, in that mode), and the '
   'combinatorial embedding it leaves is a planar (outerplanar) one of the same graph.',
   ['inputs'], 'All graphs of all orders.',
   'Tests cover all graphs on few vertices and some samples; the property is over all graphs.',
   ['c/graphLib/planarityRelated/graphEmbed.c'],
   [('edge addition walkup/walkdown', 'c/graphLib/planarityRelated/graphEmbed.c'), ('embedding integrity test', 'c/graphLib/planarityRelated/graphTests.c')],
   'Whole-algorithm functional correctness quantifies over graph structures built at run time (biconnected component roots, pertinence, external activity); no static '
   'analysis in reach bounds these heap shapes. The structural part that can be decided (results are cross-checked against a pristine copy before being reported, failures '
   'propagate, state is reinitialised) is claimed separately.')
na('N02', 'Isolated obstructions are minimal and genuine',
   'When a graph is not embeddable, the subgraph left in it is a subdivision of K5 or K3,3 (or of K4 or K2,3 for outerplanarity) contained in the input graph.',
   ['inputs'], 'All nonembeddable graphs.', 'Depends on which of the nonplanarity minor patterns arises and on path choices in arbitrarily large graphs.',
   ['c/graphLib/planarityRelated/graphIsolator.c', 'c/graphLib/planarityRelated/graphNonplanar.c', 'c/graphLib/planarityRelated/graphOuterplanarObstruction.c'],
   [('minor isolators', 'c/graphLib/planarityRelated/graphIsolator.c')],
   'Correctness of path marking in arbitrary run-time graph structure; not a property of the code shape.')
na('N03', 'Homeomorph searches find a homeomorph exactly when one exists',
   'The K2,3, K3,3 and K4 searches report a subgraph homeomorphic to the pattern exactly when the input graph contains one.',
   ['inputs'], 'All graphs.', 'Needs the graph-theoretic completeness of each reduction and search step.',
   ['c/graphLib/homeomorphSearch'], [('search extensions', 'c/graphLib/homeomorphSearch')],
   'Same as N01: the truth depends on run-time graph structure and graph theory, not on a decidable shape of the code.')
na('N04', 'Planar drawings are valid visibility representations',
   'For every planar graph the drawing assigns vertices to horizontal and edges to vertical segments that meet exactly at endpoints and do not cross.',
   ['inputs'], 'All planar graphs.', 'Coordinates are computed at run time from the embedding.',
   ['c/graphLib/planarityRelated/graphDrawPlanar.c'], [('visibility representation', 'c/graphLib/planarityRelated/graphDrawPlanar.c')],
   'Numerical positions derived from run-time embeddings; no sound static bound relates them.')
na('N05', 'Running time is linear in the number of vertices and edges',
   'Embedding, obstruction isolation, sorting and the homeomorph searches take time proportional to the size of the graph.',
   ['inputs'], 'All graphs.', 'Asymptotic cost needs amortised arguments over the run.',
   ['c/graphLib'], [('edge addition algorithm', 'c/graphLib/planarityRelated/graphEmbed.c')],
   'Amortised complexity over run-time structures; static analysis cannot bound it here.')
na('N06', 'Writing a graph and reading it back gives the same graph',
   'For every graph and every supported format, reading what was written yields a graph with the same vertices and edges.',
   ['inputs'], 'All graphs in each of the adjacency list, adjacency matrix, edge list and .g6 formats.', 'Round-trip equality is over all contents.',
   ['c/graphLib/io'], [('readers and writers', 'c/graphLib/io')],
   'Value equality over unbounded contents. The failure, bounds and end-of-input discipline of the readers and writers is claimed separately (C01, C06, C07, C08, C30).')
na('N07', 'DFS numbering, lowpoint and least ancestor values are correct',
   'After creating the DFS tree, each vertex has its depth-first index, and its least ancestor and lowpoint are the minima the definitions require.',
   ['inputs'], 'All graphs.', 'Values depend on the traversal of each input.',
   ['c/graphLib/graphDFSUtils.c'], [('DFS utilities', 'c/graphLib/graphDFSUtils.c')],
   'Numerical results over run-time graphs.')
na('N08', 'Random graph generators produce graphs with the promised properties',
   'Generated random graphs are simple, connected where promised, have the requested number of edges, and maximal planar generation yields planar triangulations.',
   ['inputs'], 'All seeds and sizes.', 'Depends on random values.',
   ['c/graphLib/graphUtils.c'], [('gp_CreateRandomGraph, gp_CreateRandomGraphEx', 'c/graphLib/graphUtils.c')],
   'Depends on values drawn at run time and on graph theory.')
