"""The properties. gen.py writes properties.jsonl and MANIFEST.json from this file and harness/checks.py."""
B = 'src/main/cpp/Balau/'
PROPS = []


def P(id, title, statement, over, over_text, why, files, mechanism, observe=None, technique=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, over_text=over_text, why=why, files=[B + f for f in files],
                      mechanism=[dict(name=n, where=B + w) for n, w in mechanism], observe=observe, technique=technique, note=note))


P('P01', 'Character classification and UTF-8 reading and writing follow Unicode',
  'Every code point is classified (letter, digit, blank, whitespace, case, validity, breakability and so on) and case mapped exactly as Unicode and ICU define it. Encoding a text as UTF-8, stepping through '
  'it forwards or backwards, counting its code points and decoding it gives back the same code points at the same offsets. On text that is not well-formed, the safe functions report an error or a '
  'replacement and never read or write outside the text.',
  ['inputs'], 'all 1,114,112 code points and values beyond them; all byte strings, well-formed or not',
  'the unit tests look at a few dozen characters and well-formed strings only',
  ['Type/Character.hpp'], [('classification functions', 'Type/Character.hpp'), ('UTF-8 iteration and writing', 'Type/Character.hpp')],
  technique='exhaustive enumeration of code points against ICU and range tables, random well- and ill-formed UTF-8 against an independent codec, under ASan/UBSan')

P('P02', 'String utilities agree with their definitions on every text',
  'Searching, prefix and suffix tests, padding, trimming, case mapping, replacing, counting, joining, splitting and line-length functions return what a naive definition over the characters of the text returns, for every '
  'UTF-8 or UTF-32 text and every pattern, including empty, overlapping and adjacent matches. No call reads outside the supplied text.',
  ['inputs'], 'all texts and patterns, including empty ones, multi-byte characters and matches at the ends',
  'the tests sample a few texts per function; boundary combinations (empty pattern, match at the end, repeated delimiters) are unbounded',
  ['Util/Strings.hpp'], [('string utilities', 'Util/Strings.hpp')],
  technique='random texts over small alphabets against naive reference implementations, under ASan/UBSan')

P('P03', 'Values survive conversion to text and back; bad text is refused',
  'Converting a number, boolean, text, UUID or container to text gives its canonical text, and reading that text gives the same value in every supported encoding and number base. Reading a text that does not denote a '
  'value of the requested type, including numbers which are out of its range, raises a conversion error and never yields some other value.',
  ['inputs'], 'all values of each supported type and all texts',
  'tests convert a handful of values each; limits of each type, out-of-range numerals and malformed texts form an unbounded input space',
  ['Type/ToString.hpp', 'Type/FromString.hpp', 'Type/Impl/ToStringImpl.hpp', 'Type/Impl/FromStringImpl.hpp', 'Type/UUID.hpp'],
  [('toString', 'Type/Impl/ToStringImpl.hpp'), ('fromString', 'Type/Impl/FromStringImpl.hpp'), ('UUID', 'Type/UUID.hpp')],
  technique='round-trip and range oracle (128-bit arithmetic) over random values and numerals, under ASan/UBSan')

P('P04', 'The property parser builds exactly the tree that the document spells out',
  'Every well-formed property document is parsed into the sequence of value, composite, include, comment and empty-line nodes that it spells out, with names and values that denote the written text once escapes and '
  'continued lines are resolved, for every line-break style. Malformed documents and invalid UTF-8 are reported with a syntax error. No input crashes the parser or yields nodes that refer outside the document.',
  ['inputs', 'programs'], 'all documents of the property language and all byte strings',
  'the tests parse a few fixed documents; the grammar with its escapes, continuations, nesting and line-break styles is unbounded',
  ['Lang/Property/Parser/PropertyParser.hpp', 'Lang/Property/Parser/PropertyScanner.hpp', 'Lang/Property/Lang/PropertyAst.hpp', 'Lang/Common/AbstractScanner.hpp'],
  [('recursive descent parser', 'Lang/Property/Parser/PropertyParser.hpp'), ('scanner', 'Lang/Property/Parser/PropertyScanner.hpp')],
  technique='structure-first document generation with the expected tree as oracle; mutation and random-byte fuzzing, under ASan/UBSan')

P('P05', 'Printing a property tree preserves its meaning',
  'Printing a parsed property document and parsing the print gives the same nodes with the same names, values, comments and includes, and printing that again gives the same text. Resolving escapes and continued lines of '
  'a name or value removes exactly the escapes, line breaks and indentation that the language defines.',
  ['inputs', 'programs'], 'all documents accepted by the parser; all raw names and values',
  'the tests print one or two fixed documents',
  ['Lang/Property/Util/PropertyAstToString.hpp', 'Lang/Property/Lang/PropertyAst.hpp'],
  [('tree printer', 'Lang/Property/Util/PropertyAstToString.hpp'), ('normalisation', 'Lang/Property/Lang/PropertyAst.hpp')],
  technique='print/parse round-trip on generated and random accepted documents; normalisation against a reference')

P('P06', 'Scanned tokens report exact positions through any sequence of moves',
  'Tokens produced by a scanner tile the text, and the line and column range reported for each token is the one counted in the text, with every line-break style and for tokens that span lines. Through any history of '
  'reading, consuming, putting back, marking, returning to marks, resetting and changing whitespace modes, the scanner interface presents the token, text and position which a plain index into the token list gives.',
  ['inputs', 'histories'], 'all token sequences and texts; all operation histories on the scanner interface',
  'the tests walk a few fixed token lists; put-back across line breaks under changing whitespace modes is a history space',
  ['Lang/Common/ScannedTokens.hpp', 'Lang/Common/AbstractScanner.hpp', 'Lang/Common/CodeSpan.hpp'],
  [('position tracking', 'Lang/Common/ScannedTokens.hpp'), ('scanner base', 'Lang/Common/AbstractScanner.hpp')],
  technique='stateful model-based testing of the scanner interface against an index model; positions against a reference count')

P('P07', 'Blocking queues are linearizable, bounded FIFO queues that lose nothing',
  'Under any number of producers and consumers, the array blocking queue never holds more than its capacity, delivers each enqueued element exactly once and in an order that a single FIFO queue could have produced, blocks only '
  'while full (enqueue) or empty (dequeue), and gives up a timed attempt only when the time has passed without room or an element. The synchronized queue is a linearizable unbounded FIFO queue.',
  ['inputs', 'schedules', 'histories'], 'all capacities, numbers of threads, operation sequences and interleavings',
  'the unit tests run one producer and one consumer; interleavings are unbounded',
  ['Container/ArrayBlockingQueue.hpp', 'Container/BlockingQueue.hpp', 'Container/SynchronizedQueue.hpp'] ,
  [('array blocking queue', 'Container/ArrayBlockingQueue.hpp')],
  technique='stateful model-based testing (sequential) and linearizability checking of random concurrent programs, under ASan and TSan')

P('P08', 'The dependency graph reports dependencies, orders and cycles exactly',
  'After any history of adding and removing vertices and relationships, the dependency graph reports exactly the vertices, relationships and edge data which remain, its dependency order puts every vertex after all it depends '
  'on, the parallel order puts each vertex on the level of its longest dependency chain, and cycles are reported (with edges that lie on cycles) exactly when there are some. Unknown or duplicate items are refused.',
  ['inputs', 'histories'], 'all graphs, cyclic or not, and all histories of edits',
  'the tests build two or three fixed graphs and never remove a vertex from the middle of a large one',
  ['Container/DependencyGraph.hpp'], [('graph', 'Container/DependencyGraph.hpp')],
  technique='stateful model-based testing against a set-of-edges model with naive reachability and longest path')

P('P09', 'The object trie keeps, finds, visits and cascades nodes as a plain tree does',
  'After any history of additions, replacements, find-or-add calls, copies and moves, the object trie holds exactly the nodes and the child order that a plain tree would hold. Searches return the exact, nearest or nearest leaf match '
  'of a key chain and nothing else, depth and breadth first iteration visit every node once in order with the right ancestors, and cascading one trie onto another replaces matching nodes and adds the others, applying the given function to each value.',
  ['inputs', 'histories'], 'all tries, key chains and edit histories',
  'the tests use two fixed tries; combinations of depth, duplicates, comparators and cascades are unbounded',
  ['Container/ObjectTrie.hpp'], [('trie', 'Container/ObjectTrie.hpp')],
  technique='stateful model-based testing against a plain recursive tree, under ASan/UBSan')

P('P10', 'The injector supplies the binding that the request and the hierarchy determine',
  'For any set of bindings, spread in any way over configurations, added configurations and a hierarchy of injectors (including prototype children), a request for a type, kind (value, unique, reference, shared, weak) and name is '
  'answered by the binding of exactly that key in the nearest injector. Requests for const objects fall back to non-const bindings. A request without a binding is refused or answered by the given default, and two bindings of one '
  'key in an injector are refused. Shared objects are the same object on each request, and all objects are destroyed with the injectors.',
  ['inputs', 'programs', 'histories'], 'all configurations, hierarchies and requests',
  'the tests make a few fixed requests of fixed configurations; combinations of kinds, const promotion, names and hierarchy levels are unbounded',
  ['Application/Injector.hpp', 'Application/BindingBuilder.hpp', 'Application/ApplicationConfiguration.hpp', 'Application/Impl/BindingKey.hpp', 'Application/Impl/BindingMap.hpp', 'Application/Impl/Binding.hpp'],
  [('request implementation', 'Application/Injector.hpp'), ('binding keys', 'Application/Impl/BindingKey.hpp'), ('binding map', 'Application/Impl/BindingMap.hpp')],
  technique='generated injector hierarchies and requests against a map-based model of resolution, under ASan/UBSan')

P('P11', 'Valid injectors build and destroy each object once; faulty ones are refused',
  'An injector is created, and validation succeeds, exactly when each dependency is supplied by a binding of the hierarchy, no dependencies form a cycle and no singleton keeps its injector alive. Validation constructs nothing. Eager '
  'singletons are constructed once at creation, after what they depend on, lazy ones once on first use even by concurrent threads, and thread-local ones once per thread and injector. A construction which throws leaves nothing behind '
  'and may be repeated. Post-construction calls, pre-destruction calls and static singletons take effect once, when all singletons exist.',
  ['inputs', 'programs', 'schedules', 'histories'], 'all dependency graphs, hierarchies, request histories, construction faults and interleavings',
  'the tests use small fixed graphs, one thread and no construction faults',
  ['Application/Injector.hpp', 'Application/Impl/Binding.hpp', 'Container/DependencyGraph.hpp', 'Concurrent/LazyValue.hpp', 'Concurrent/ThreadLocalInstance.hpp'],
  [('validation and creation', 'Application/Injector.hpp'), ('bindings', 'Application/Impl/Binding.hpp'), ('thread-local instances', 'Concurrent/ThreadLocalInstance.hpp')],
  technique='generated dependency graphs, hierarchies, faults and histories against a model of validation and instantiation; concurrent programs, under ASan and TSan')

P('P12', 'Environment properties become bindings of the specified types and values',
  'For any property texts (cascaded sources, nested composites, included files), type specifications and default values, an environment configuration provides each property as a binding of the specified type, at the place in the '
  'hierarchy where the property is, with the value of the last source that defines it or else the default value; a property without a specification is a string. Unknown types, values that cannot be converted and specifications '
  'which contradict the properties are refused.',
  ['inputs'], 'all property hierarchies, type specifications, defaults and values',
  'the test of environment configurations does not even build here, and only samples a few fixed files',
  ['Application/EnvironmentConfiguration.hpp', 'Application/EnvironmentProperties.hpp', 'Application/Impl/EnvironmentConfigurationBuilder.hpp', 'Application/Impl/EnvironmentConfigurationBuilderUtils.hpp',
   'Application/Impl/PropertyTypeSpecificationVisitor.hpp', 'Application/Impl/PropertyBindingBuilderFactory.hpp'],
  [('configuration', 'Application/EnvironmentConfiguration.hpp'), ('specifications', 'Application/Impl/PropertyTypeSpecificationVisitor.hpp'), ('builder', 'Application/Impl/EnvironmentConfigurationBuilder.hpp')],
  technique='generated property sources, specifications and defaults against a tree model of the typed environment, under ASan/UBSan')

P('P13', 'The command line parser assigns each argument to its option or final value',
  'For any option table, style (space, equals or detected) and final value mode, a parsed command line yields exactly the options given with their values, reachable by key, short and long switch, and the final values in order; '
  'numeric access gives the number that the text denotes or refuses it. Unknown switches, missing option values and missing required final values are refused. Parsers may be reused. The help text shows all options and their '
  'documentation within the given width.',
  ['inputs', 'programs'], 'all option tables and argument lists',
  'the tests parse a few fixed lines with one table',
  ['Application/CommandLine.hpp'],
  [('parser', 'Application/CommandLine.hpp')],
  technique='generated option tables and argument lists against a model built with the arguments, under ASan/UBSan')

P('P14', 'URIs are taken apart as the grammar says, and resolving keeps their authority',
  'For every URI of the grammar, its scheme, user information, host, port, path, query and fragment are exactly the components that it was written from, and the compound views (authority, path and query, and so on) are the matching '
  'parts of the text. Texts that are not URIs are refused, for any bytes, without reading outside the text. Path normalisation is lexical. Appending to or resolving against a URL keeps its scheme, user information, host and port.',
  ['inputs', 'programs'], 'all URIs, all byte strings, all paths',
  'the tests look at a few dozen URIs; presence and absence of each component, lengths of zero and one and damaged texts combine without bound',
  ['Resource/UriComponents.hpp', 'Resource/Url.hpp', 'Resource/Http.hpp', 'Resource/UriResolve.hpp'],
  [('components', 'Resource/UriComponents.hpp'), ('resolution', 'Resource/UriResolve.hpp')],
  technique='generated and damaged URIs against the components they were built from; metamorphic relations of resolution, under ASan/UBSan')

P('P15', 'File and string URIs report, read and write exactly what is there',
  'For any history of creating, writing, truncating and removing files and directories, through any notation of the path, a file URI reports existence, kind, size, name, parent and children as they currently are, its resources '
  'write exactly the bytes or the UTF-8 encoding of the text given and read back exactly the contents, and iterators visit every entry once. Missing files give a report, not a crash. Paths are resolved lexically against a file or its directory. String URIs read back their text.',
  ['histories', 'inputs'], 'all directory trees, contents, path notations and operation orders',
  'the tests read fixed files of the source tree; histories in which files change behind existing URI objects are unbounded',
  ['Resource/File.hpp', 'Resource/StringUri.hpp', 'Resource/UriFromString.hpp', 'Resource/UriResolve.hpp', 'Util/Files.hpp'],
  [('file URIs and resources', 'Resource/File.hpp'), ('string URIs', 'Resource/StringUri.hpp'), ('resolution', 'Resource/UriResolve.hpp')],
  technique='generated file histories in a scratch directory against a model of the tree, under ASan/UBSan')

P('P16', 'Zip transactions are all or nothing; archives give back exactly what was stored',
  'For any history of putting, renaming and deleting files and directories, a commit produces a well-formed archive that holds exactly the resulting entries and comment, and an abandoned transaction leaves the archive as it was. '
  'Entries of any archive are read back exactly, by name or index, through the unzipper, zip file iterators, entry URIs and their resources, with the right password only. Damaged archives are reported: never damaged data, crashes, endless loops or huge allocations.',
  ['histories', 'inputs', 'fault_sequences'], 'all transaction histories, entry names and contents; all archives, damaged or encrypted',
  'the tests read and rewrite two fixed archives',
  ['Util/Zip.hpp', 'Resource/ZipFile.hpp', 'Resource/ZipEntry.hpp', 'Resource/UriResolve.hpp'],
  [('unzipper and zipper', 'Util/Zip.hpp'), ('zip URIs', 'Resource/ZipFile.hpp'), ('entry resources', 'Resource/ZipEntry.hpp')],
  technique='generated transaction histories against a model, an independent archive reader and writer, random damage judged by CRC, under ASan/UBSan')

P('P17', 'Semaphores, barriers, lazy values and single time executors hold under threads',
  'For any program of threads: a semaphore decrement completes only with a permit and never waits while there is one; nobody passes a cyclic barrier before everybody has reached it, everybody passes then, and it can be reused and '
  'reconfigured; a lazy value is constructed once, on first use, however many threads ask, all of which see the complete value, and a failed construction can be repeated; a single time executor runs its code once, and the code of its '
  'destructor exactly when the other was run.',
  ['schedules', 'histories'], 'all interleavings of any number of users, all numbers of permits, threads and rounds, all points at which computations fail',
  'the tests run one fixed program per class and one of the schedules it has',
  ['Concurrent/Semaphore.hpp', 'Concurrent/CyclicBarrier.hpp', 'Concurrent/LazyValue.hpp', 'Concurrent/SingleTimeExecutor.hpp'],
  [('decrement, increment', 'Concurrent/Semaphore.hpp'), ('countdown', 'Concurrent/CyclicBarrier.hpp'), ('operator ()', 'Concurrent/LazyValue.hpp'), ('constructor', 'Concurrent/SingleTimeExecutor.hpp')],
  technique='generated programs of threads with planned pauses judged by counting invariants, under ASan/UBSan and TSan')

P('P18', 'Fork reports how each child process ended and terminates the one asked for',
  'For any history of forks, exits, signals, checks, waits and terminations: checkForTermination and waitOnProcess report exactly how each child ended (exit status or signal) when it has ended and not before, waiting returns when it ends, '
  'terminateProcess ends a running child, functions passed to performFork run in the child alone with their result as exit status, and processes that are not children are reported as errors.',
  ['histories', 'schedules'], 'all histories of process creation, ends and queries',
  'the tests fork once per operation, with one exit status',
  ['Concurrent/Fork.hpp'],
  [('performFork, checkForTermination, waitOnProcess, terminateProcess', 'Concurrent/Fork.hpp')],
  technique='generated process histories against a model of the children, under ASan/UBSan')

P('P19', 'Shared memory queues lose, duplicate, damage and reorder nothing',
  'For any history over any handles of a queue: objects come out complete, by priority and then in the order of their enqueueing; capacity, timeouts (in every time zone), success flags and oversize rules hold; opening finds the existing queue. '
  'With any number of producing threads and processes, of objects of any size with one consumer and of objects that fit with any number, every object arrives exactly once, undamaged, in the order of its producer. A queue is removed with its creator.',
  ['histories', 'schedules', 'configurations'], 'all operation histories, object and buffer sizes, capacities, priorities and interleavings of threads and processes',
  'the tests transfer equal objects of one size, do not look at success flags, priorities or order, and open nothing by name',
  ['Interprocess/SharedMemoryQueue.hpp', 'Interprocess/Impl/SharedMemoryQueueImpl.hpp'],
  [('enqueue, tryEnqueue, dequeue, tryDequeue', 'Interprocess/SharedMemoryQueue.hpp'), ('chunk reassembly', 'Interprocess/SharedMemoryQueue.hpp')],
  technique='model-based histories over several handles, and generated programs of producing and consuming threads and processes, under ASan/UBSan and TSan')

P('P20', 'A shared memory object is one object for every handle and process',
  'For any history of creating, opening (or creating, read-only), writing, forking and moving: every handle of a name, in any process, sees the one object last created under it with all writes to it; opening an existing object does not '
  'construct it anew, opening a missing one fails; handles moved from are inert; the shared memory goes with its creator and stays until then.',
  ['histories', 'configurations'], 'all histories of creation, opening, writing, moving and forking, for objects of any size',
  'the tests only use one anonymous object before and after a fork',
  ['Interprocess/MSharedMemoryObject.hpp', 'Interprocess/USharedMemoryObject.hpp'],
  [('constructors, remap, moves', 'Interprocess/USharedMemoryObject.hpp'), ('constructors, moves, removal', 'Interprocess/MSharedMemoryObject.hpp')],
  technique='model-based histories over handles and processes, under ASan/UBSan')

P('P21', 'Each log message goes once to where its namespace, level and configuration say',
  'For any history of logger requests, configurations (texts with placeholders and includes, environment properties), resets and failures to configure: a message is written if and only if its level is enabled in its namespace, once, to '
  'the stream configured for the namespace and level, with its format and flushing; namespaces inherit what they do not set from their nearest ancestor; loggers obtained before a configuration follow it; a configuration that cannot be '
  'applied changes nothing; log files are appended to.',
  ['histories', 'configurations'], 'all sets of namespaces and options, all orders of requesting, configuring and logging',
  'the tests check a handful of configurations with one stream',
  ['Logging/Logger.hpp', 'Logging/Logger.cpp', 'Logging/Impl/LoggingState.cpp', 'Logging/Impl/LoggingStreams.cpp', 'Logging/Impl/LoggerConfigurationVisitor.hpp', 'Logging/Impl/LoggerPropertyVisitor.hpp'],
  [('configure, getInstance, propagateConfiguration, setStreams', 'Logging/Impl/LoggingState.cpp'), ('log file streams', 'Logging/Impl/LoggingStreams.cpp')],
  technique='model-based histories with capturing streams, a fresh process per history, under ASan/UBSan')

P('P22', 'A log line is the format specification with every specifier replaced',
  'For any format specification, message, parameters, call form, level, namespace, location and thread: the line written is the format with each specifier replaced by what it stands for, where the message is the message text with the '
  'placeholders replaced by the parameters in order (missing ones by ????, surplus ones ignored), whatever characters it has, and the date and time are those of the call.',
  ['inputs'], 'all format specifications, messages and parameters',
  'the tests compare a few lines with plain ASCII messages and matching parameters',
  ['Logging/Logger.cpp', 'Logging/Impl/LoggerItems.hpp', 'Logging/Impl/LoggerMessageItems.hpp', 'Logging/Impl/LoggingState.cpp'],
  [('logMessage, textToMessageItems', 'Logging/Logger.cpp'), ('log items', 'Logging/Impl/LoggerItems.hpp'), ('setFormats', 'Logging/Impl/LoggingState.cpp')],
  technique='generated formats and messages against a reference renderer, under ASan/UBSan')

P('P23', 'Concurrent logging and reconfiguration lose, tear and misroute nothing',
  'For any program of threads that log, request loggers and flush while the logging system is reconfigured: each message of an enabled level is written exactly once, as one whole line, in a format and to a stream that the configurations '
  'in effect during the call give its namespace; the messages of a thread stay in order in a stream; all threads receive the same logger for a namespace; when configuration returns, it applies.',
  ['schedules', 'histories'], 'all interleavings of logging threads with configurations',
  'the tests log from one thread',
  ['Logging/Logger.cpp', 'Logging/Impl/LoggingState.cpp', 'Logging/Impl/LoggingStreams.hpp'],
  [('logMessage', 'Logging/Logger.cpp'), ('cascadeAndConfigureLoggers', 'Logging/Impl/LoggingState.cpp'), ('FileLoggingStream', 'Logging/Impl/LoggingStreams.hpp')],
  technique='generated programs of threads judged by what reached the streams, under ASan/UBSan and TSan')
P('P24', 'The test runner runs each selected test once and reports its outcome',
  'For any registered test groups, execution model, concurrency level, command line and selection: each selected test whose group supports the execution model runs exactly once, between its setup and its teardown, and no other test runs; '
  'the outcome of each (passed, failed assertion, other exception, ignored, terminated process) is the one that happened, in the log, in the totals, in the list of failed tests and in the reports; the run ends, and returns 0 if and only if no test failed or errored.',
  ['programs', 'fault_sequences', 'configurations'], 'all test groups, outcomes including signals and exits of worker processes, execution models, concurrency levels and selections',
  'the tests run in the runner, mostly pass, and cannot crash',
  ['Testing/TestRunner.hpp', 'Testing/Impl/TestRunnerExecutor.hpp', 'Testing/Impl/MultiProcessTestRunnerExecutor.hpp', 'Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp', 'Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp',
   'Testing/Impl/WorkerThreadsTestRunnerExecutor.hpp', 'Testing/Reporters/SurefireTestReportGenerator.cpp'],
  [('runTest', 'Testing/Impl/TestRunnerExecutor.hpp'), ('runChildLogic', 'Testing/Impl/MultiProcessTestRunnerExecutor.hpp'), ('createRegexString', 'Testing/Impl/TestRunnerExecutor.hpp')],
  technique='generated test suites with planned outcomes, run in forked processes and compared with counters in shared memory, the log and the reports, under ASan/UBSan and TSan')
P('P25', 'Assertions pass exactly when their relation holds and show both values if not',
  'For any actual and expected value, exception or type, and each matcher: the assertion returns if and only if the relation of the matcher holds between the values; otherwise it throws an AssertionException that contains the location and the message given '
  'and, unless printing is disabled, both values with each line or element marked equal or different as it is.',
  ['inputs'], 'all values of the supported types, all matchers',
  'the tests assert examples',
  ['Testing/Assertions.hpp', 'Testing/Matchers.hpp', 'Testing/Impl/MatcherClasses.hpp', 'Testing/Impl/StandardRenderers.hpp', 'Testing/Impl/HexContainerRendererImpl.hpp'],
  [('assertThat', 'Testing/Assertions.hpp'), ('MatcherFunction', 'Testing/Impl/MatcherClasses.hpp'), ('render', 'Testing/Impl/StandardRenderers.hpp')],
  technique='generated related values compared with independently computed relations and renderings, under ASan/UBSan')
P('P26', 'GZip round trips, hashes are those of their definitions, files read back whole',
  'For any content: what GZip writes from a string, a stream or a file is a gzip file of exactly that content, and gunzip to a file, a string or a stream yields exactly the content of any gzip file; the hash of a file, a stream or a string, and of data added in any '
  'pieces, is the value defined by the algorithm; file contents and lines are read whole. Missing files, directories and unreadable files are reported by the documented exceptions, never hashed or read as empty.',
  ['inputs', 'fault_sequences'], 'all contents, splits into pieces and gzip files, missing and unreadable files',
  'the tests hash and compress a few texts',
  ['Util/Compression.hpp', 'Util/Hashing.hpp', 'Util/Files.hpp', 'ThirdParty/HashLibrary/sha256.h', 'ThirdParty/HashLibrary/sha3.h', 'ThirdParty/HashLibrary/keccak.h', 'ThirdParty/HashLibrary/sha1.h', 'ThirdParty/HashLibrary/md5.h', 'ThirdParty/HashLibrary/crc32.h'],
  [('gunzip', 'Util/Compression.hpp'), ('computeHash', 'Util/Hashing.hpp'), ('add', 'ThirdParty/HashLibrary/sha256.h')],
  technique='round trips and differential tests against zlib, OpenSSL and an independent Keccak, under ASan/UBSan')
P('P27', 'URL encoded data decodes exactly, malformed data never reads astray',
  'For any input: decoding yields the input with each plus sign replaced by a space and each valid escape by its byte, leaving out escaped data that is not UTF-8 if it is validated, without reading outside the input; '
  'errors throw NetworkException if asked for and are otherwise ignored, losing nothing around them. Splitting yields each parameter once, before decoding, and rejects a parameter with two equal signs. A MIME type is the one registered for the lower case extension of the path.',
  ['inputs'], 'all byte strings, parameter lists, tables and paths',
  'the tests decode four valid strings and pass no flags',
  ['Network/Utilities/UrlDecode.hpp', 'Network/Utilities/MimeTypes.hpp', 'Network/Utilities/MimeTypes.cpp'],
  [('decode', 'Network/Utilities/UrlDecode.hpp'), ('split', 'Network/Utilities/UrlDecode.hpp'), ('lookup', 'Network/Utilities/MimeTypes.cpp')],
  technique='generated inputs compared with an independent decoder, in memory of their exact size under ASan/UBSan')
P('P28', 'Printed numbers, bytes, durations and times read back as what they were',
  'For any number, byte string, duration or time point: what is printed denotes the value to within the rounding of the decimal places asked for, with the sign and the largest unit or prefix that applies, each component within its range and bytes as two digits each in the '
  'lines and groups asked for; formatting with date and time specifiers gives the civil date and time, reading a formatted duration gives it back; the clock reports the current time in each unit.',
  ['inputs'], 'all numbers, byte strings, durations and time points with formats of the listed specifiers',
  'the tests print positive values from tables',
  ['Util/PrettyPrint.hpp', 'Util/DateTime.hpp', 'System/Clock.hpp', 'System/SystemClock.hpp', 'System/Sleep.hpp'],
  [('duration', 'Util/PrettyPrint.hpp'), ('metricPrefix', 'Util/PrettyPrint.hpp'), ('printHexBytes', 'Util/PrettyPrint.hpp'), ('toString', 'Util/DateTime.hpp')],
  technique='generated values printed and read back by an independent parser and calendar, under ASan/UBSan')
P('P29', 'Container, stream, scope and random utilities do exactly what they promise',
  'For any elements, texts, ranges and sequences of operations: containers and vectors are appended, concatenated, mapped, moved (without copying) and searched as defined; streams are read and consumed whole; the function of a scope guard runs exactly once, when asked or at the end of the '
  'scope that holds the guard last, unless cleared; random numbers lie within both limits, every value of a range turns up and a seed determines the sequence; UUIDs are unique, ordered and printed by their bytes; a development assertion aborts with its message if and only if it fails.',
  ['inputs', 'histories'], 'all containers, texts, ranges, seeds and sequences of operations on guards',
  'the tests draw ten random numbers and read one file, the other utilities have no tests',
  ['Util/Containers.hpp', 'Util/Vectors.hpp', 'Util/Memory.hpp', 'Util/Streams.hpp', 'Util/Random.hpp', 'Util/Impl/RandomImpl.hpp', 'Type/OnScopeExit.hpp', 'Type/MovableOnScopeExit.hpp', 'Type/UUID.hpp', 'Dev/Assert.hpp'],
  [('RandomNumberGenerator', 'Util/Random.hpp'), ('MovableOnScopeExit', 'Type/MovableOnScopeExit.hpp'), ('pushBackOrReplace', 'Util/Vectors.hpp'), ('consume', 'Util/Streams.hpp')],
  technique='generated inputs and operation sequences compared with models in the standard library, under ASan/UBSan')
P('P30', 'Application and user directories follow the environment, and stay private',
  'For any environment, names and user: the data, config and runtime directories of the user are below the first of the documented variables that is set and not blank, else below the documented default; the global ones are next to the program; each is fixed at the first call in the process. '
  'The runtime directory exists on return, belongs to the user with access mode 0700 and keeps its contents. Without HOME the home directory is that of the password entry; a user without an entry is reported by an exception.',
  ['configurations', 'schedules'], 'all environments, umasks, existing directories, users and concurrent first calls',
  'the tests run in the one environment of the developer',
  ['Util/App.hpp', 'Util/Impl/AppImpl.hpp', 'Util/User.hpp'],
  [('getApplicationRuntimeDataDirectory', 'Util/Impl/AppImpl.hpp'), ('getHomeDirectory', 'Util/User.hpp'), ('getUserName', 'Util/User.hpp')],
  technique='generated environments and users, each in its own process below a scratch folder, compared with the documented rules, under ASan/UBSan')
P('P31', 'HTTP servers answer each request from the configured web application alone',
  'For any server (document root, routing tree or environment configuration) and any requests: each complete request gets exactly one answer, in order on its connection, from the web application with the most specific location prefix, with the status, type, body and length it defines; HEAD answers '
  'have no body, redirections follow the first match in their order. Nothing outside the document root is ever served. A client session is that of a valid cookie, else a new one. Malformed requests, vanishing clients and failing handlers (answered by 500) never stop, block or leak connections of the '
  'server. A server can be started and stopped any number of times, reports a port that is taken, accepts connections exactly while it is running, and closes all connections when stopped.',
  ['inputs', 'histories', 'schedules'], 'all servers, requests, byte sequences, client behaviours and histories of starts and stops',
  'the tests of the server are not compiled, and send single well formed requests',
  ['Network/Http/Server/HttpServer.cpp', 'Network/Http/Server/HttpServer.hpp', 'Network/Http/Server/HttpSession.cpp', 'Network/Http/Server/HttpSession.hpp', 'Network/Http/Server/HttpWebApp.cpp', 'Network/Http/Server/Impl/Listener.hpp',
   'Network/Http/Server/Impl/HttpSessions.hpp', 'Network/Http/Server/Impl/ClientSessions.hpp', 'Network/Http/Server/HttpWebApps/FileServingHttpWebApp.cpp', 'Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp',
   'Network/Http/Server/HttpWebApps/RedirectingHttpWebApp.cpp', 'Network/Http/Server/HttpWebApps/CannedHttpWebApp.cpp', 'Network/Http/Server/HttpWebApps/FailingHttpWebApp.cpp'],
  [('onRead', 'Network/Http/Server/HttpSession.cpp'), ('resolve', 'Network/Http/Server/HttpWebApps/RoutingHttpWebApp.hpp'), ('stop', 'Network/Http/Server/HttpServer.cpp'), ('onAccept', 'Network/Http/Server/Impl/Listener.hpp')],
  technique='generated servers, requests, hostile byte sequences and start/stop histories over loopback compared with a model of the configuration, under ASan/UBSan and TSan')
P('P32', 'HTTP clients and email sender deliver what was asked, report what happened',
  'For any method, path, body and answer: the HTTP and HTTPS clients send exactly one request with that method, target, version, host, user agent and body, and return the status, fields and body of the answer whatever its framing, without waiting for a body after HEAD. For any form posted to an email '
  'sender: exactly one message goes to the mail server over TLS with the configured credentials, sender, recipients and subject and the body made from the decoded form, complete at any length; the client is given the success answer if and only if the server accepted the message, else the failure '
  'answer. Other methods send nothing.',
  ['inputs', 'fault_sequences'], 'all requests, answers, forms, bodies and refusals of the mail server',
  'the tests need the internet and an account on a mail server, and are not compiled',
  ['Network/Http/Client/HttpClient.cpp', 'Network/Http/Client/HttpClient.hpp', 'Network/Http/Client/HttpsClient.hpp', 'Network/Http/Server/HttpWebApps/EmailSendingHttpWebApp.cpp', 'Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp'],
  [('sendRequest', 'Network/Http/Client/HttpClient.cpp'), ('sendRequest', 'Network/Http/Client/HttpsClient.hpp'), ('handlePostRequest', 'Network/Http/Server/HttpWebApps/EmailSendingHttpWebApp.cpp'), ('dataSourceCallback', 'Network/Http/Server/HttpWebApps/Impl/CurlEmailSender.cpp')],
  technique='generated requests, answers and mail server refusals against stub servers that record what they receive, under ASan/UBSan')
