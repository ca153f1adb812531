BASE_NOTE = ('Every path of the real code is explored for all values of the symbolic inputs within the stated bounds; z3 decides '
             'every branch and every assertion; counterexamples are replayed on the un-instrumented code before being '
             'reported. Outside the bounds nothing is claimed. Trusts CPython, z3, and the proxies (validated by replaying '
             'path models on the real code).')

P('P01', 'head and tail keep exactly the first or last N items',
  'For every stream and integer N > 0, `head N` outputs exactly the first N items and `tail N` exactly the last N items (all '
  'of them if there are fewer), unchanged and in the original order. For N < 0, the items from the end (head) or the '
  'beginning (tail) of the stream, |N| of them, are dropped instead, and all the others are output. N = 0 is rejected.',
  ['inputs'], 'every stream length up to the bound, all item values, every N including beyond the stream length',
  'Tests run a handful of (length, N) pairs with gen output; a boundary error for one relation of N to the length goes unseen.',
  ['marcel/op/head.py', 'marcel/op/tail.py'],
  [('head counts or queues items', 'marcel/op/head.py'), ('tail ring buffer', 'marcel/op/tail.py')], BASE_NOTE)

P('P02', 'sort outputs an ordered, stable permutation of its input',
  'The output of sort is a permutation of the input, ordered by the items themselves or by the values of the key function if '
  'there is one. Items with equal keys keep their input order.',
  ['inputs'], 'all streams of integers and tuples up to the bound; ascending and descending key functions',
  'Tests sort a few fixed sequences; ordering, multiplicity and stability are statements about all sequences.',
  ['marcel/op/sort.py'], [('items accumulated, sorted at end of stream', 'marcel/op/sort.py')], BASE_NOTE)

P('P03', 'unique keeps exactly one of each distinct item',
  'unique outputs each distinct input item exactly once, and nothing else. With --consecutive, an item is dropped if and only '
  'if it is equal to the one immediately before it, so the output is the first item of each run of equal items, in order.',
  ['inputs'], 'all streams up to the bound, scalars and tuples',
  'The behavior depends on the equality pattern of the stream; tests use one or two patterns.',
  ['marcel/op/unique.py', 'marcel/util.py'], [('set of items seen / last item', 'marcel/op/unique.py')], BASE_NOTE)

P('P04', 'window groups the stream without losing, repeating or reordering items',
  '`window --overlap N` outputs, for each input item, the window of N items starting there, padded with None past the end of the '
  'stream. `window --disjoint N` partitions the stream into consecutive groups of N, the last one padded with None. With a '
  'predicate, a new group starts at each item satisfying it (and at the first item), and concatenating the groups yields the '
  'input.',
  ['inputs'], 'all streams up to the bound, every window size up to two more than the length, all thresholds',
  'Sizes larger than the stream, and interplay of size and length, are not sampled by the tests.',
  ['marcel/op/window.py'], [('Overlap, Disjoint, PredicateWindow', 'marcel/op/window.py')], BASE_NOTE)

P('P05', 'red computes the left fold of each position, per group, isolating bad inputs',
  'red outputs, for each position of the input tuples, the left-to-right fold of the values there by the reduction given for '
  'that position (count yields the number of inputs), for the whole stream or separately for each distinct combination of '
  'values at the positions marked as grouping. With --incremental it outputs, for every input, the input followed by the '
  'reductions of the stream (or group) so far. An input that is too short, or that a reduction fails on, yields one Error and '
  'contributes to no position of any result.',
  ['inputs'], 'all tuples and group patterns up to the bound; commutative and non-commutative reductions; failing reductions',
  'Grouping, incremental and error handling interact with the pattern of equal keys and with the position of bad inputs.',
  ['marcel/op/red.py', 'marcel/reduction.py'], [('GroupingReducer, NonGroupingReducer', 'marcel/op/red.py')], BASE_NOTE)

P('P06', 'map, select, reverse, squish, expand and cast transform every item, once',
  'map outputs the function value of each item in order (including None), select outputs exactly the items satisfying the '
  'predicate in order, and reverse the items in opposite order. squish reduces each item to a single value by folding left to '
  'right. expand replaces a sequence by its elements in order, or, given a position within the tuple, outputs one tuple for each '
  'element of the sequence at that position (so nothing, if it is empty), and items for which there is no such position '
  'unchanged. The sequences are lists, tuples, sets, structs, dicts, generators and other iterables. cast converts the values at the '
  'positions for which there is a type, except None, and leaves the others alone; an item that cannot be converted yields an Error.',
  ['inputs'], 'all streams up to the bound, tuples of each width, nested sequences of each length, every position',
  'Nested sequences of varying and zero length, and positions outside the tuple, are not covered by examples.',
  ['marcel/op/map.py', 'marcel/op/select.py', 'marcel/op/reverse.py', 'marcel/op/squish.py', 'marcel/op/expand.py', 'marcel/op/cast.py'],
  [('receive()', 'marcel/op/expand.py')], BASE_NOTE)

P('P07', 'gen outputs exactly the requested integers',
  '`gen N S` outputs exactly the integers S, S+1, ..., S+N-1, and `gen 0 S` continues for as long as anything consumes them. With '
  '--pad P each is a string padded on the left with zeros to P characters; a padding that is too small for the numbers, or a '
  'negative start, is rejected.',
  ['inputs'], 'count up to the bound, every start value, paddings around powers of ten',
  'Boundaries (padding exactly sufficient, unbounded generation) are single points in an infinite space.',
  ['marcel/op/gen.py'], [('setup validation, run loop', 'marcel/op/gen.py')], BASE_NOTE)

P('P08', 'join outputs the equi-join of two streams',
  'join outputs, for every pair of a left and a right tuple with equal first elements, the left tuple followed by the right '
  'tuple without its first element, in the order of the left input. With --keep, left tuples that match nothing are output '
  'unchanged as well. An unhashable key ends the command with a message.',
  ['inputs'], 'all left and right streams up to the bound, all key equality patterns, tuple widths 1 to 3',
  'Multiplicity (duplicate keys on both sides) and absent keys give many patterns; tests have one fixed pair of streams.',
  ['marcel/op/join.py', 'marcel/pipeline.py'], [('right input collected into a map at first use', 'marcel/op/join.py')], BASE_NOTE)

P('P09', 'union, intersect and difference are bag operations',
  'For each item, the number of times it is output is the sum (union), the minimum (intersect) or the non-negative '
  'difference (difference) of the number of times it occurs in the inputs, for any number of arguments that the operator '
  'accepts. Nothing else is output. A list counts as the tuple of its elements; an unhashable item ends the command with a message.',
  ['inputs'], 'all inputs up to the bound, every pattern of duplicates and common items, two and three inputs',
  'Counts depend on the pattern of duplicates across all the inputs; tests use a few.',
  ['marcel/op/union.py', 'marcel/op/intersect.py', 'marcel/op/difference.py'],
  [('count maps', 'marcel/op/intersect.py'), ('count map', 'marcel/op/difference.py')], BASE_NOTE)

P('P10', 'filter keeps or discards items by presence in the other input',
  'filter --keep (the default) outputs exactly the input items that are present in the argument stream, and filter --discard '
  'exactly those that are not, in input order and with input duplicates preserved. With --compare, presence is decided by the '
  'value of the function, and what is output is the original item. An unhashable item ends the command with a message.',
  ['inputs'], 'all inputs up to the bound, with each combination of flags',
  'Equality patterns and flag combinations are not sampled exhaustively.',
  ['marcel/op/filter.py'], [('set of right items', 'marcel/op/filter.py')], BASE_NOTE)

P('P11', 'case sends each item to the first branch whose predicate holds',
  'Each input item of case is processed by the pipeline of the first branch whose predicate is true, by the default pipeline '
  'if no predicate is true, and is dropped if there is no default. The output is that of all the pipelines, and at the end of '
  'the input every branch outputs its final results, in order of the branches.',
  ['inputs'], 'all streams and thresholds up to the bound, 1 to 3 branches, with and without default, stateful branches',
  'Overlapping predicates and items matching nothing give combinations beyond the examples.',
  ['marcel/op/case.py'], [('predicates tried in order', 'marcel/op/case.py')], BASE_NOTE)

P('P12', 'args runs its pipeline once for each group of inputs, in order',
  'For a pipeline with K parameters, args runs it once for each K consecutive inputs, bound to the parameters in order, the '
  'last group being padded with None, and outputs the output of all the executions in order. With --all the pipeline is run '
  'once, with the list of all inputs (not at all if there are none).',
  ['inputs'], 'all streams up to the bound, K of 1 to 3, API and command line',
  'The padding depends on the length modulo K, tests have a few lengths.',
  ['marcel/op/args.py', 'marcel/pipeline.py'], [('args buffer', 'marcel/op/args.py')], BASE_NOTE)

P('P13', 'A pipeline is the composition of its operators, with one end of stream',
  'The output of `f | g` is the output of g applied to exactly the output of f, in order, for any operators and input '
  'stream: each operator sees all the output of the one before it, and then the end of the stream exactly once. Text, a '
  'pipeline assigned to a variable (or to several, combined or nested in a pipeline) and the API (marcel.api) do the same.',
  ['inputs'], 'all pairs (thorough: triples) of 30 operators with 11, all integer streams up to the bound, five forms',
  'The number of combinations of operators is quadratic; tests have each operator at the end of a pipeline.',
  ['marcel/pipeline.py', 'marcel/core.py', 'marcel/op/runpipeline.py', 'marcel/op/args.py', 'marcel/op/union.py', 'marcel/op/case.py'],
  [('receive_complete -> flush propagates end of stream', 'marcel/pipeline.py'), ('Op.send, send_complete', 'marcel/core.py')],
  BASE_NOTE)

P('P14', 'Executions of a pipeline are independent of each other',
  'Running a pipeline (API value, variable, argument of an operator, or one used at several places in a command) yields the '
  'same as running a newly written one on the same input, no matter how often it has been run before, on what data, whether '
  'an earlier execution was abandoned half way (first(), unfinished iterator), and whether it has been extended by `|` or '
  'passed as an argument to other pipelines.',
  ['inputs', 'histories'], '30 operators, five histories of use through the API and four through the command line, all streams up '
  'to the bound',
  'Operators keep state (counters, sets, last items); the tests run most pipelines once.',
  ['marcel/pipeline.py', 'marcel/core.py', 'marcel/op/runpipeline.py', 'marcel/api.py'],
  [('copies of pipelines and ops', 'marcel/pipeline.py'), ('setup() resets state', 'marcel/op/head.py')], BASE_NOTE)

P('P15', 'Every command line is parsed or rejected, never crashes the parser',
  'Parsing any text either yields a command, or fails with an error describing the problem (KillCommandException or a subclass): '
  'no other exception escapes, and parsing terminates.',
  ['inputs'], 'every text consisting of one of 19 beginnings (op, arguments, open string, expression, redirection, nested pipeline '
  '...) followed by any 0 to 4 characters representing each lexical class',
  'The space of malformed texts is unlimited; tests have some well-formed ones and a few errors.',
  ['marcel/parser.py', 'marcel/stringliteral.py', 'marcel/argsparser.py'],
  [('Lexer, Parser', 'marcel/parser.py'), ('string literals', 'marcel/stringliteral.py')], BASE_NOTE)

P('P16', 'A failing item yields one Error and affects nothing else',
  'If the function given to an operator raises an exception on an item, the item yields one Error at its place in the output '
  'instead of its result, and all other items are processed as if that item did not exist. Errors pass by the operators that '
  'follow, which process the other items as usual. A command that cannot be parsed or set up is reported, processes nothing, and '
  'has no effect on the commands after it.',
  ['inputs', 'fault_sequences'], 'every subset of failing items up to the bound, 7 exception types, all stream operators downstream, API and '
  'command line; 20 ways of killing a command',
  'Which items fail, and which operator sees the Error, combine to more cases than tests can list.',
  ['marcel/core.py', 'marcel/object/error.py', 'marcel/op/map.py', 'marcel/op/window.py', 'marcel/pipeline.py'],
  [('call() turns exceptions into Errors', 'marcel/core.py'), ('receive_error', 'marcel/core.py')], BASE_NOTE)

P('P17', 'Arguments are bound to pipeline parameters, visible only inside',
  'Running a pipeline with parameters binds flags (-name value, --name value) to the parameters named, then the other arguments '
  'to parameters in order, and None to those left. Unknown or repeated names, flags without a value or following another '
  'argument, parameters given twice, and too many arguments are rejected. Parameters are visible in the pipeline (and what it '
  'runs), hide variables of the same name, and cannot be seen by the operators following the pipeline, nor after the execution '
  'ends in any way: the hidden variables then have their values again.',
  ['inputs', 'histories'], 'all sequences of arguments up to the bound; 23 nestings of pipelines with and without equal names; '
  'seven ways of ending',
  'Argument order, name clashes and abnormal ends interact.',
  ['marcel/op/runpipeline.py', 'marcel/argsparser.py', 'marcel/nestednamespace.py', 'marcel/pipeline.py', 'marcel/op/args.py'],
  [('bindings()', 'marcel/op/runpipeline.py'), ('PipelineArgsParser', 'marcel/argsparser.py'),
   ('push_scope, pop_scope', 'marcel/nestednamespace.py')], BASE_NOTE)

P('P18', 'Quoting and escaping denote exactly the string written',
  'On the command line, a string in single quotes denotes the characters between the quotes, whatever they are; in double quotes '
  '(without double quote or backslash) likewise; a backslash outside of quotes makes the next character ordinary; and ordinary '
  'characters denote themselves. Strings in quotes that follow each other without space, and expressions next to strings, are concatenated. This is so for arguments of pipelines, values of their flags, and assignments, in any position '
  'and nested in other pipelines. String literals in Python expressions are not affected by the marcel syntax.',
  ['inputs'], 'all strings of 0 to 4 characters, for every character class, written in six ways at eight places',
  'Each metacharacter can occur at each position in each kind of quotes; tests have a few examples.',
  ['marcel/parser.py', 'marcel/stringliteral.py', 'marcel/argsparser.py', 'marcel/util.py'],
  [('String.scan, Expression.scan', 'marcel/parser.py'), ('StringLiteral', 'marcel/stringliteral.py')], BASE_NOTE)

P('P19', 'A workspace is used by at most one process, and is never lost to a dead one',
  'However processes that create, open, close and delete a workspace interleave, at most one of them has the workspace open at any '
  'time, and none deletes it while another has it open; the others are refused with a proper error. What a process assigned is seen '
  'by the next one to open the workspace. If a process dies at any '
  'point of opening, using or closing the workspace, the workspace can be opened by others.',
  ['schedules', 'crash_points'], 'all interleavings of up to three processes with bounded preemptions, at most two dying, at every file operation',
  'Tests run one process that does not die; the failing interleavings have windows of microseconds.',
  ['marcel/object/workspace.py'],
  [('lock_workspace, unlock_workspace, owner, Marker: rename of a marker file', 'marcel/object/workspace.py')], BASE_NOTE,
  state=[('marker file', 'unowned workspace, or pid of the owner', 'marcel/object/workspace.py')])

P('P20', 'Workspaces keep variables apart, for as long as the workspace exists',
  'ws --new creates and opens a workspace, unless there is one of that name; ws NAME opens an existing one; ws --close returns to '
  'the default workspace; ws --delete deletes one that exists and is not open; ws --home sets its home. ws and ws --list always '
  'show the current workspace and the existing ones. A variable assigned or deleted in one workspace is unaffected by those of '
  'other workspaces, and has the value last assigned there whenever the workspace is open again, in the same process or another. '
  'Variables of the default workspace have the value last assigned in the same process.',
  ['histories'], 'every history of these actions up to the bound, on two workspaces and the default one, over successive processes',
  'Tests have a few fixed scenarios; the state is a product of several workspaces and processes.',
  ['marcel/object/workspace.py', 'marcel/op/ws.py', 'marcel/main.py', 'marcel/env.py', 'marcel/nestednamespace.py'],
  [('open, close, write_environment, read_environment', 'marcel/object/workspace.py'),
   ('main_script_run restarts after a change of workspace', 'marcel/main.py')], BASE_NOTE)

P('P21', 'Closing a workspace saves the variables, completely, or not at all',
  'When a workspace is closed, each of its variables bound to data, a function, a pipeline, or a reservoir has the same value (and, '
  'for code, behavior) after reopening it, however often, also if it depends on other variables, in whatever order they have been assigned. A variable whose value cannot be saved is lost, and no other. If the '
  'process dies at any point of closing, the workspace is usable, with the variables of before or after closing, all of them; '
  'likewise its home; and it can be deleted.',
  ['histories', 'crash_points'], 'histories of assignments of 14 kinds of values, deletion and reopening on two variables; death at every file '
  'operation of closing',
  'Tests save and restore a few kinds of values separately, and never interrupt saving.',
  ['marcel/object/workspace.py', 'marcel/envvalue.py', 'marcel/nestednamespace.py', 'marcel/reservoir.py'],
  [('to_persistent_state, from_persistent_state', 'marcel/nestednamespace.py'), ('write_environment', 'marcel/object/workspace.py')],
  BASE_NOTE)

P('P22', 'Variables have the value last assigned, and failed commands change nothing',
  'After any sequence of commands, a variable has the value last given to it, by assignment (data, string, function, pipeline), by '
  'store (> VAR, >> VAR, store), by import, or by env -d; env and env VAR show it, and env -p shows exactly the variables whose '
  'names contain the pattern. A failing command leaves all variables as they were. Parameters of a pipeline hide variables of the '
  'same name only while the pipeline runs. The variables documented as immutable (USER, PWD, DIRS, ...) cannot be assigned, '
  'deleted, stored or imported into, by any command.',
  ['histories', 'inputs'], 'every history of the actions up to the bound; unbounded integer values; every pattern within the alphabet and length',
  'Tests assign each kind of value once; the guarantees are about sequences, and about all ways to assign.',
  ['marcel/op/assign.py', 'marcel/op/env.py', 'marcel/op/import.py', 'marcel/op/store.py', 'marcel/env.py', 'marcel/nestednamespace.py'],
  [('VarHandler: immutable variables', 'marcel/env.py'), ('NestedNamespace: scopes', 'marcel/nestednamespace.py')], BASE_NOTE)

P('P23', 'fork runs each instance in its own process, and outputs everything they output',
  'fork N [pipeline] runs an instance for each of 0..N-1 (or each item of an iterable), passing it to the pipeline if that has a '
  'parameter. The output consists of the items output by all instances, each item exactly once, and the items of each instance in '
  'order, no matter how slowly or quickly any of them proceeds; it ends when all have ended. An instance that dies, or fails, '
  'affects the output of no other. Errors are passed on as Errors.',
  ['schedules', 'fault_sequences', 'inputs'], 'every interleaving of delivery within the bounds; every instance dying before any of its items',
  'Tests run fork with fast pipelines that never fail; slow, dying or silent instances are not covered.',
  ['marcel/op/fork.py', 'marcel/op/forkmanager.py'],
  [('ForkManager.run: waits for readers and removes those at the end', 'marcel/op/forkmanager.py')], BASE_NOTE)

P('P26', 'The interactive shell controls its jobs as documented',
  'In the interactive shell, a pipeline runs as a job in the foreground: the shell reads the next command once the job has ended, '
  'or has been stopped by ctrl-Z. ctrl-C ends the foreground job, ctrl-Z stops it, and neither affects any other job. jobs lists '
  'exactly the jobs that have not ended, with number, state, process id and source. fg and bg resume the job given by number, -j or '
  '-p, in the foreground or background; a job that does not exist is reported, with no other effect. What a job stores in a '
  'variable is available to the next commands once it has ended normally. No job survives the shell.',
  ['histories', 'schedules'], 'every sequence of commands and events (a job ends, ctrl-C, ctrl-Z) within the bounds',
  'The test suite has no test of job control: it needs a terminal and several processes, and depends on timing.',
  ['marcel/job.py', 'marcel/op/jobop.py', 'marcel/op/fg.py', 'marcel/op/bg.py', 'marcel/op/jobs.py', 'marcel/main.py'],
  [('Job, JobControl, signal handlers', 'marcel/job.py'), ('JobOp.setup finds the job', 'marcel/op/jobop.py')], BASE_NOTE)

P('P24', 'What is written to files is read back, and files are read completely',
  'Every item of a stream is written to the file, and read back: with --csv and --tsv as tuples of strings (of any characters but '
  'line terminators), with --pickle as the same values, otherwise as lines; writing replaces or (--append) appends to the contents, '
  'and the items are also passed on. > and >> are equivalent to write and write --append, FILE < to read. read outputs each line of '
  'each file in order, without its terminator. --headings outputs named tuples according to the first line of the same file, padded '
  'with None; --skip-headings omits that line; --label puts the File first. An item that cannot be formatted, a row that does not '
  'fit, invalid headings, and Errors in the input affect no other item.',
  ['inputs', 'histories'], 'all rows, lines and histories of writing within the bounds; every character of the alphabets stated',
  'Tests read a few prepared files; quoting, delimiters and terminators in any position, and combinations of options, are not covered.',
  ['marcel/op/read.py', 'marcel/op/write.py', 'marcel/op/filenamesop.py', 'marcel/picklefile.py', 'marcel/parser.py'],
  [('CSVReader, TextReader, PickleReader', 'marcel/op/read.py'), ('CSVWriter, DefaultWriter', 'marcel/op/write.py')], BASE_NOTE)
P('P25', 'Tab completion offers exactly what fits; what it inserts denotes the offer',
  'For any text before the cursor, completion neither fails nor prints a stack trace, and only extends or rewrites that text. The '
  'operators, flags and help topics offered are exactly those beginning with what has been typed. The files offered for an argument '
  'are exactly those in the given directory (current, relative, absolute) whose names begin with what has been typed, whether it is '
  'bare, escaped, or in single or double quotes. Choosing one yields an argument that, evaluated by marcel, is the path of that '
  'file: a directory ends with / and is left open, anything else is terminated, with the closing quote, by a space.',
  ['inputs'], 'all texts, file names and typed prefixes within the bounds; every character with a meaning on the command line',
  'Tests complete a handful of fixed lines; names containing characters with a meaning on the command line, in each kind of '
  'quoting, are not covered.',
  ['marcel/tabcompleter.py', 'marcel/parser.py', 'marcel/util.py'],
  [('TabCompleter.get_completions', 'marcel/tabcompleter.py'), ('FilenameHandler', 'marcel/tabcompleter.py')], BASE_NOTE)
P('P27', 'The directory stack follows cd, pushd, popd and dirs, and matches the process',
  'The top of the directory stack is always the current directory: of the process, in PWD, DIRS, and as output by pwd and dirs. cd '
  'replaces the top, by the home directory if none is given; pushd adds a directory, or without one swaps the top two; popd removes '
  'the top, unless it is the last; dirs --clear leaves only the current directory. pushd, popd and dirs output the stack, top '
  'first. Directories given may be absolute, relative, links, quoted, begin with ~, or be a pattern that matches just one. Anything '
  'that is not a directory, is ambiguous or cannot be entered is rejected with an error message, changing nothing. Directories that '
  'have ceased to exist are dropped from the stack.',
  ['histories', 'fault_sequences'], 'all histories of commands within the bounds; removals and refusals at any point',
  'Tests run one or two fixed sequences; error cases and combinations of swaps, links and removals are not covered.',
  ['marcel/directorystate.py', 'marcel/op/cd.py', 'marcel/op/pushd.py', 'marcel/op/popd.py', 'marcel/op/dirs.py', 'marcel/op/pwd.py',
   'marcel/op/filenames.py'],
  [('DirectoryState', 'marcel/directorystate.py'), ('Filenames.normalize', 'marcel/op/filenames.py')],
  BASE_NOTE)
P('P28', 'ls lists exactly the files asked for, once each, in order, and describes them',
  'ls outputs, as Files, exactly the existing files, directories and symbolic links (only those of the kinds selected by -f, -d, -s, '
  'if any) that are named by the arguments or match them as patterns (-0), and also (-1, the default) those directly inside '
  'directories among these, or (-r) inside them to any depth; by default those of the current directory, whatever its name. No path '
  'is output twice, each directory is immediately followed by its contents, and all are in sorted order, for any names. If nothing matches, the command is '
  'rejected. Names are displayed relative to the deepest directory containing all arguments, or the only one. A directory or file that cannot be read yields an Error and affects nothing else. A File has the metadata of '
  'the file, displays its mode, owner, group, size, time and target, and keeps them when pickled, even if the file is gone.',
  ['inputs', 'configurations', 'fault_sequences'], 'all directory trees, flags and arguments within the bounds; a failure anywhere',
  'Tests list one prepared directory; combinations of links, kinds, depths and overlapping arguments, and failures, are not covered.',
  ['marcel/op/ls.py', 'marcel/op/filenamesop.py', 'marcel/op/filenames.py', 'marcel/object/file.py'],
  [('FilenamesOp.visit', 'marcel/op/filenamesop.py'), ('Filenames.normalize', 'marcel/op/filenames.py')], BASE_NOTE)

P('P29', 'Programs run with the stdin of the stream, and no output is lost or reordered',
  'A program run by name, or by bash, gets the command as it was typed (quotes and escapes included, expressions replaced by their '
  'values), and the items of the pipeline as lines of its stdin, followed by the end of file. Every line that it writes to stdout before it ends becomes a string passed to the next operator, '
  'every line of stderr an Error, completely and in order, whatever the timing, the sizes of writes, and the bytes: with or '
  'without newline at the end, invalid UTF-8, another process keeping the streams open. A program that does not read its input, an empty '
  'stream, failing operators before or after, or a pipeline that needs only the first line neither lose anything else nor hang or fail. '
  'A program run interactively is not given a stream: it is started only if the pipeline runs, is waited for, and is rejected where it would have to receive items.',
  ['schedules', 'inputs', 'programs'], 'all interleavings of the program and marcel\'s threads, and chunks of output, within the bounds',
  'The outcome depends on when a program writes, how much at a time, and when it ends; tests run a few programs that write little.',
  ['marcel/op/bash.py', 'marcel/parser.py'], [('NonInteractive, ProcessOutputHandler', 'marcel/op/bash.py'),
  ('create_op_executable, Lexer', 'marcel/parser.py')], BASE_NOTE)


P('P30', 'Flags and arguments of an operator mean what its usage says, or are rejected',
  'For every operator, a command line is accepted exactly if it follows the documented usage, and rejected with a message otherwise: flags '
  'precede the arguments, each at most once, in any order, in their short or long form (equivalent), those without values also combined '
  '(-ab); a flag that requires a value has one; unknown flags, flags that exclude each other, missing or surplus arguments, and values of the '
  'wrong kind (number, function, pipeline) are rejected. Equivalent command lines mean the same, and none of the flags, values and arguments '
  'given is ignored. Everything that follows the name of a program is passed to the program.',
  ['inputs'], 'all sequences of words, out of those representing each kind, and all characters of flags and numbers, within the bounds',
  'There are 46 operators with up to 11 flags; tests use few of the combinations, and nearly none that must be rejected.',
  ['marcel/argsparser.py', 'marcel/opmodule.py', 'marcel/parser.py'], [('ArgsParser', 'marcel/argsparser.py')], BASE_NOTE)

P('P31', 'An argument given by an expression means the same as its value',
  'Wherever an operator accepts a number, a string or a file name as an argument or as the value of a flag, `(EXPR)` has the same output, '
  'effects and messages as the value of EXPR written there. If that value is not of a kind, or in the range, accepted there, or EXPR fails, '
  'the command is rejected with a message and has no effect. Whatever the value is, the shell is still there afterwards.',
  ['inputs'], 'every such argument of the operators; integers of the range, strings that name things or do not, and values of 12 other types',
  'Nearly all tests use literals; each argument is evaluated and checked by code of its own in 30 operators.',
  ['marcel/core.py', 'marcel/op', 'marcel/argsparser.py'], [('Op.eval_function', 'marcel/core.py')], BASE_NOTE)

P('P32', 'Operators called from Python mean the same as their command lines',
  'Calling a function of marcel.api, with arguments of the documented types in any combination, gives the pipeline that the corresponding command '
  'line does: same output, same Errors, same effects, same rejections. gather, first, run, iteration and write consume a pipeline as documented: '
  'every item in order, once; Errors are output, collected or passed to the handler, and never mistaken for items.',
  ['inputs'], 'all functions with local effects, combinations of parameters, items, and positions of Errors, within the bounds',
  'Each function translates its parameters into flags by code of its own; tests of the API repeat a part of the tests of the command line, '
  'with literal arguments.',
  ['marcel/api.py', 'marcel/pipeline.py', 'marcel/op'], [('the functions of marcel.api', 'marcel/api.py')], BASE_NOTE)

P('P33', 'Reservoirs and pickle files hold exactly the items stored',
  'After any sequence of commands that store to, append to, load from, copy, or both read and write reservoirs (variables) and pickle files, '
  'on the command line or from Python, loading yields exactly the items stored by the last store and the appends after it, in order, equal to the '
  'originals as of when they were stored; an item that cannot be pickled is an Error and does not affect the others; a damaged file yields the items before the '
  'damage, then an Error; loading a variable that is not a reservoir is rejected, without an effect.',
  ['histories', 'inputs', 'fault_sequences'], 'all sequences of commands, items sharing values, and damages, within the bounds',
  'The result depends on the history of a variable, on pipelines reading what they write, and on values shared between items.',
  ['marcel/picklefile.py', 'marcel/reservoir.py', 'marcel/op/store.py', 'marcel/op/load.py', 'marcel/op/read.py', 'marcel/op/write.py'],
  [('PickleFile', 'marcel/picklefile.py')], BASE_NOTE)

P('P34', 'A pipeline does the same wherever it is run',
  'A pipeline has the same output, in the same order, the same Errors, and the same effects on files and variables, whether typed as a command, run '
  'through a variable (once or twice), with parameters, followed by another operator, as an argument of args, case, union or fork, or as a command of '
  'an interactive session, which is run by another process.',
  ['inputs', 'configurations'], 'pipelines using every operator with local effects, in every context, on any values within the bounds',
  'Pipelines are copied, pickled, compiled again in other processes, and set up more than once, depending on the context; tests check each '
  'operator at the top level, with few exceptions.',
  ['marcel/pipeline.py', 'marcel/core.py', 'marcel/op', 'marcel/job.py', 'marcel/function.py'],
  [('PipelineExecutable', 'marcel/pipeline.py'), ('run_pipeline_in_child', 'marcel/op/forkmanager.py')], BASE_NOTE)

P('P35', 'Recalled and edited commands are those asked for',
  'In an interactive session, !N and run N execute command N of the history, !! and run the last one, and edit N places exactly the text of command N in the '
  'editor and then executes what the user saved (of one or more lines). history lists the commands, with these numbers. Anything else that is '
  'typed is executed as typed. A number that is out of range, missing, or not a number, or surplus text, gives a message, and nothing is executed or edited; no '
  'command runs itself forever.',
  ['histories', 'inputs'], 'histories of commands, any number, all forms of recalling, in sequences, within the bounds',
  'Recalling depends on the history, which commands extend as they run; there are no tests of it.',
  ['marcel/reader.py', 'marcel/runeditor.py', 'marcel/op/run.py', 'marcel/op/edit.py', 'marcel/op/history.py'],
  [('Reader.handle_edit_and_run', 'marcel/reader.py')], BASE_NOTE)

P('P36', 'Scripts run each of their commands once, in order, with the arguments given',
  'A script, whether a file, on stdin, or registered by run_on_startup, runs each of its commands once and in order: blank lines and comments are '
  'skipped, lines ending in \\ are continued, and a failing command does not prevent those following it. Opening a workspace (also by a script) runs the startup '
  'scripts of that workspace, once, and of no other. parse_args assigns exactly the values given by the arguments of the script to the declared '
  'variables, or rejects them with a message: unknown flags, missing values, values that are not integers, missing flags that are required.',
  ['inputs', 'histories'], 'sequences of lines and of workspaces opened, declarations, and arguments (any characters), within the bounds',
  'Tests run single commands; there are no tests of scripts, startup scripts or parse_args.',
  ['marcel/main.py', 'marcel/configscript.py', 'marcel/cliargs.py', 'marcel/builtin.py'],
  [('main_script_run, commands_in_script', 'marcel/main.py'), ('CommandLine', 'marcel/cliargs.py')], BASE_NOTE)
P('P37', 'sql executes each statement once, with its arguments, and commits as specified',
  'sql executes its statement once if there is no input, and otherwise once for each item that is not an Error, in order, with the ARGs bound to its '
  'parameters if there are any, and otherwise the item. Rows of a query are the output, each once; otherwise update counts, if asked for. Everything executed is '
  'committed: at the end; at each statement (--autocommit); and whenever the sum of update counts reaches the limit of --commit. If a statement or the commit fails, '
  'nothing that is uncommitted takes effect, and the command is killed. The connection is closed in any case, and a profile is chosen by --db, and otherwise DB_DEFAULT.',
  ['inputs', 'fault_sequences'], 'statements, flags, input, update counts, commit limits and failures of statements and commits, within the bounds',
  'The tests of sql need a PostgreSQL database.',
  ['marcel/op/sql.py', 'marcel/object/db.py'],
  [('Sql', 'marcel/op/sql.py'), ('Connection', 'marcel/object/db.py')], BASE_NOTE)
P('P38', 'remote, sudo, upload, download run once on each host; results arrive intact',
  'A pipeline given to remote is executed once by each host of the cluster, with the variables of that host, and each item arrives, with the host it is from, in the order '
  'it has been written by that host. Errors of a host, including the end of the pipeline by one, are output with the label of that host. A host that fails, or whose output is truncated, '
  'contributes the beginning of its output, and does not affect others. sudo executes a pipeline once, as another user, and outputs its items. upload and download execute one copy '
  'command for each host, for exactly the files given. The user, identity, port, flags, directories and files given arrive as single words at ssh, sudo and scp, whatever characters they contain. '
  'All of this is the same if the command is executed repeatedly, by a pipeline variable or args.',
  ['schedules', 'inputs', 'programs', 'fault_sequences', 'configurations'], 'pipelines, clusters, values, names, and failing hosts, within the bounds',
  'The tests of remote, sudo, upload and download need hosts to connect to.',
  ['marcel/op/remote.py', 'marcel/op/sudo.py', 'marcel/op/upload.py', 'marcel/op/download.py', 'marcel/op/forkmanager.py', 'marcel/object/cluster.py', 'bin/farcel.py'],
  [('Remote, RunRemote', 'marcel/op/remote.py'), ('Sudo', 'marcel/op/sudo.py'), ('scp_command', 'marcel/op/upload.py, marcel/op/download.py'), ('Cluster, Host', 'marcel/object/cluster.py'),
   ('main, PipelineRunner', 'bin/farcel.py')], BASE_NOTE)
P('P39', 'Installing, upgrading and damaged workspaces keep everything of the user',
  'Whatever version of marcel has left the files of a user, or none, starting marcel succeeds, and afterwards the startup scripts, environments, properties and reservoirs of all workspaces, '
  'and the histories, are as before, in the current format. This is the same if the process installing or upgrading is killed at any point and marcel is started again, or if several processes '
  'start at once. A workspace with missing or extraneous files is set aside with all of its files, and this is reported; other workspaces are not touched; and there is then a valid default workspace. '
  'The version recorded never goes backwards, and is recorded only when everything is in the format of that version.',
  ['crash_points', 'schedules', 'histories', 'configurations'], 'layouts of files, workspaces, kinds of damage, points at which processes are killed, and interleavings, within the bounds',
  'The tests install each layout once, in one process, without interruption.',
  ['marcel/persistence/storagelayout.py', 'marcel/persistence/persistence.py', 'marcel/locations.py', 'marcel/object/workspace.py', 'marcel/main.py'],
  [('ensure_current, migrations', 'marcel/persistence/storagelayout.py'), ('validate_all, mark_broken', 'marcel/persistence/persistence.py'),
   ('Workspace', 'marcel/object/workspace.py'), ('Locations', 'marcel/locations.py')], BASE_NOTE)
P('P40', 'ps outputs the processes asked for; Processes, Files, HistoryRecords compare',
  'ps outputs, in the order in which the system reports them, exactly the processes: all of them; those whose real, effective or saved user (-u) or group (-g) is the one given by name or number, a name '
  'taking priority over a number, or by default that of the caller; the one with the given pid (-p); or those whose name, executable, or a word of the command line contains the given string (-c). '
  'An unknown name or an invalid pid is rejected. Each Process has the attributes that the system reports, None for those that are not accessible, also when pickled; signal sends exactly that signal to it; '
  'all of its columns are displayed. A Process, File or HistoryRecord is equal to one with the same pid, path or id, ordered like these, and different from anything else, so that operators comparing items accept mixed inputs.',
  ['inputs', 'configurations'], 'processes, users, groups, arguments and strings, within the bounds',
  'The tests cannot know the processes of the system; they check ps for those that exist while testing.',
  ['marcel/op/ps.py', 'marcel/object/process.py', 'marcel/object/file.py', 'marcel/object/historyrecord.py', 'marcel/util.py'],
  [('Ps', 'marcel/op/ps.py'), ('Process', 'marcel/object/process.py'), ('uid, gid', 'marcel/util.py')], BASE_NOTE)
P('P41', 'Items, prompts and help are displayed completely, in the colors specified',
  'Each item of the output is displayed on its own line, in order, a 1-tuple as its element, and errors among them. The text displayed does not depend on the colors, and is not colored at all unless written to the terminal. '
  'On the terminal, the parts of Files, Processes, HistoryRecords, Errors and help are displayed in exactly the colors of the color scheme, if it has these, and no color is left on. A color scheme accepts only Colors for its keys, and a Color that cannot be displayed is reported. '
  'The prompt consists of its strings and the values of its functions, in order, each in the color that precedes it; a wrong prompt is replaced by the default one, and PROMPT_DIR is relative to the home directory if the current directory is in it. '
  'All words of a help text are displayed, in order, in paragraphs indented as specified, wrapped so that they fill but do not exceed 90% of the width of the console, whatever it is.',
  ['inputs', 'configurations'], 'items, color schemes, prompts, directories, help texts and widths of the console, within the bounds',
  'The tests display a few items without a terminal, and print help texts without checking them.',
  ['marcel/op/write.py', 'marcel/object/color.py', 'marcel/object/file.py', 'marcel/object/process.py', 'marcel/object/historyrecord.py', 'marcel/object/error.py', 'marcel/env.py', 'marcel/helpformatter.py',
   'marcel/op/help.py', 'marcel/util.py'],
  [('DefaultWriter', 'marcel/op/write.py'), ('ColorScheme', 'marcel/object/color.py'), ('File.render_full', 'marcel/object/file.py'), ('EnvironmentInteractive.prompt', 'marcel/env.py'),
   ('HelpFormatter', 'marcel/helpformatter.py'), ('colorize', 'marcel/util.py')], BASE_NOTE)
P('P42', 'Tracing shows what operators do and does not change it',
  'With tracing on, whatever its target, each command has the same output, the same Errors, the same effects, and fails exactly if it does without tracing. The trace contains the setup of each operator, '
  'each item received by an operator and each Error, in order. Tracing is off, or on with exactly one target, as specified by the last successful trace command, across pickling; trace describes it, and nothing already traced is lost.',
  ['inputs', 'programs', 'histories'], 'commands, items and sequences of trace commands, within the bounds',
  'The tests do not use tracing.',
  ['marcel/env.py', 'marcel/op/trace.py', 'marcel/core.py', 'marcel/pipeline.py', 'marcel/op/write.py'],
  [('Trace', 'marcel/env.py'), ('Op.send', 'marcel/core.py'), ('PipelineOpList', 'marcel/pipeline.py'), ('Trace', 'marcel/op/trace.py')], BASE_NOTE)
P('P43', 'JSON text and values correspond to each other',
  'json_parse of a JSON text yields its value: an object whose members, in the order of the text, are attributes, items by [] and items(); a list; or a string, number, boolean or None. Text that is not JSON is an Error of the item. '
  'json_format yields JSON text denoting its argument, built of values parsed, objects made by o(), dicts, lists and tuples. read --json outputs exactly the value of each file, labelled with the File if requested, '
  'whatever the lines into which the text is divided, and an Error for a file that is not JSON, without losing the other files.',
  ['inputs'], 'JSON values, texts and files, within the bounds',
  'The tests parse a dozen fixed texts; they do not format objects, or read broken files.',
  ['marcel/jsonutil.py', 'marcel/structish.py', 'marcel/builtin.py', 'marcel/op/read.py'],
  [('JSONUtil', 'marcel/jsonutil.py'), ('Struct', 'marcel/structish.py'), ('JSONReader', 'marcel/op/read.py'), ('json_parse, json_format', 'marcel/builtin.py')], BASE_NOTE)
