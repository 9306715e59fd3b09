"""Per-property notes for DESIGN.md: what is generated, the oracle, the bounds, and why this reaches what the tests cannot."""
D = {}
D['P01'] = '''
* Generated: all code points 0..U+1103FF in blocks (exhaustive) plus random larger values; random texts; random mixtures of whole, truncated and stray UTF-8 sequences.
* Oracle: ICU (`u_isalpha`, ...) and tables of ranges for Balau's own definitions; an independently written UTF-8 codec.
* Bounds: texts up to some 40 code points. Safe functions get texts in exactly sized heap blocks, so that ASan sees each byte read outside.
* The unsafe functions (`getNextUtf8`) are only given well-formed text, as documented.
'''
D['P02'] = '''
* Generated: UTF-8 and UTF-32 texts over tiny alphabets (one to three letters, multi-byte characters, spaces of one to three bytes, line breaks), patterns cut from the text or made from the same alphabet.
* Oracle: naive definitions over the vector of code points (search by comparison at each position, and so on).
* Bounds: texts up to some 30 characters, patterns up to 5.
'''
D['P03'] = '''
* Generated: values of each numeric type biased to limits and powers; numerals with signs, prefixes and digits for bases 2 to 36, too long ones, damaged ones (embedded NULs, trailing text); UTF-8/16/32; containers; UUIDs.
* Oracle: canonical text written with 128-bit arithmetic; an independent numeral parser with 128-bit range check; round trip for floating point.
'''
D['P04'] = '''
* Generated: documents from a random tree; names and values are made of atoms (text, escapes, continuations with indentation), joined with random separators, blanks, and one of the line-break styles LF, CR, CRLF, LFCR.
  Malformed documents damage a valid one in a way that the grammar forbids. Random bytes and mutated documents check for memory safety and for views that stay within the document.
* Oracle: the tree from which the document was written.
'''
D['P05'] = '''
* Generated: as P04, and random accepted texts.
* Oracle: parse(print(t)) = t and print(parse(print(t))) = print(t); normalisation against a reference that works on the list of atoms.
'''
D['P06'] = '''
* Generated: random token lists with texts (multi-line tokens, four line-break styles) fed by a test scanner; random operation histories of the scanner API.
* Oracle: a plain index into the token list, with positions counted from the text's beginning.
'''
D['P07'] = '''
* Generated: sequential operation histories (model: std::deque) and concurrent programs of 2 to 6 threads.
* Oracle: each recorded concurrent history has to be linearizable (search over linearizations), and no thread may be left blocked while it could proceed (hang detection by a bounded wait, the
  programs are built so that each one terminates under a correct queue). TSan reports data races.
'''
D['P08'] = '''
* Generated: edit histories over up to ten vertices. Oracle: a set of vertices and a map of edges, naive reachability, longest path by recursion.
'''
D['P09'] = '''
* Generated: edit histories with 15 kinds of edit, searches, cascades of two tries. Oracle: a plain tree of vectors.
'''
D['P10'] = '''
* Generated: one to four injectors (plain and prototype children); bindings of two classes, seven key categories, 11 singleton, 5 value and 4 unique forms, four names, spread over one to three configurations given as
  arguments or as a vector, plus added configurations (nested); 26 kinds of request with five names.
* Oracle: one map per level; nearest exact key, const promotion for references and shared pointers; identity of shared objects; a count of live objects.
'''
D['P11'] = '''
* Generated: a table of dependencies (nine forms) for four injectable classes that read the table at run time, so that any dependency graph can be made without code generation; bindings (lazy, eager, thread-local,
  provided, provider class, function, value, unique), hierarchies, prototypes, construction faults at any class, callbacks, static singletons, requests. Concurrent programs of 2 to 4 threads. A worker thread which outlives several injectors.
* Oracle: graph reachability for the verdict; a simulation of instantiation that predicts the count of constructions of each class and the outcome of each request; object identity; a count of live objects.
* Not judged: whether pre-destruction calls run for an injector that was merely validated.
'''
D['P12'] = '''
* Generated: a hierarchy of typed properties, written as one to three cascaded property texts (with included files in nested directories), one or two specification texts and a `configure` method with defaults; bad values,
  unknown types and specifications that contradict the properties.
* Oracle: the generated tree with its typed values; refusals are predicted from the faults put in.
* Not judged: composite properties with a value specification that has a default; the type `signed long` (registered under two keys).
'''
D['P13'] = '''
* Generated: option tables (with and without values, short and long switches, documentation), final value modes, styles; argument lists made from intended meanings, some with faults; reused parsers; help texts of any width.
* Oracle: the intended meaning; conversions are compared with an independent parser of numbers.
'''
D['P14'] = '''
* Generated: URIs from random components by the grammar of the manual (each component present or absent, lengths from empty to the limit), damaged URIs, random bytes; paths with dots; URLs with paths appended or resolved.
* Oracle: the components that the URI was made of; for damaged texts only safety (no access outside the text, no exception other than InvalidUriException) and that all views are parts of the text; an independent path normaliser.
'''
D['P15'] = '''
* Generated: histories of 14 kinds of step over a tree of files and directories in a scratch directory, each through a path notation chosen at random, with file objects that live long; file trees for the iterators; resolutions.
* Oracle: a map of the tree; the files as read with the standard library; a lexical normaliser.
* Not judged: `File::size` of missing files (the documentation contradicts itself); byte order marks (the text resources consume them); the unfinished write resources of string URIs; HTTP resources (the client does not build here, see below).
'''
D['P16'] = '''
* Generated: transaction histories (put from file, vector and string; directories; renames and deletions of entries and directories; comments; commit, close, reopen) over colliding names in several notations; archives made by a writer
  in the harness (stored, deflated, comments, traditional encryption); damage to bytes, lengths and header fields.
* Oracle: a map of the entries; a reader and a writer of the archive format that share nothing with libzip; CRC and size of whatever is read from a damaged archive; a malloc hook bounds allocations.
* Not judged: what reads return for entries that the current transaction has changed; directory renames into themselves (only that abandoning them leaves no trace); non-recursive zip iterators (not implemented).
'''

D['P17'] = '''
* Generated: programs of up to eight threads over one semaphore, barrier, lazy value or executor, with planned pauses, barrier reconfigurations and computations that throw.
* Oracle: counts (permits given against taken, arrivals per round, computations, executions), that every thread finishes, and TSan.
* Schedules are those the kernel produces with the planned pauses; interleavings are sampled, not enumerated.
'''

D['P18'] = '''
* Generated: histories over several children, each with a planned exit status or fatal signal, held back by a pipe until released; checks and waits before and after; termination; invalid and reaped process ids.
* Oracle: a model of each child (running, dead, reaped; how it ended). terminateProcess is never called with -1 or 0, which a faulty version could pass on to kill.
'''

D['P19'] = '''
* Generated: sequential histories (enqueue, tryEnqueue, dequeue, tryDequeue in all forms, priorities, waits, time zones) over up to three handles of one queue; producers as threads or forked processes with own or shared handles, payloads
  below and far above the buffer size, capacities from one; consumers that mix blocking, polling and waiting.
* Oracle: a priority list with slots counted from the serialised size; per producer sequence numbers and recomputed payloads; /dev/shm after the creator is gone.
* Not judged: whether an object that fits exactly is oversize; when shared memory of a queue that several handles created goes.
'''

D['P20'] = '''
* Generated: histories of creation (also over an existing object), opening in three modes, writes, increments in two processes at once, moves, children with inherited or own handles; objects of 1 byte to 20 KB, names up to 100 characters longer.
* Oracle: one model object; /dev/shm after the creator is gone.
* Not judged: opened unmanaged objects also remove the name when they are destroyed; names of more than 150 characters (the management data of managed objects has a fixed size).
'''

D['P21'] = '''
* Generated: histories of logger requests, configurations (any options in any namespaces, in every notation, through placeholders, includes and environment properties), configurations that must fail, resets, flushes, and messages at every
  level in every call form. Each history runs in a process of its own, because the logging system is process-wide state.
* Oracle: a model of inheritance and stream selection; registered capturing streams, captured standard streams and log files, all of which are compared after every message.
* Not judged: unknown stream schemes (the documentation contradicts itself), cyclic placeholders, the undeveloped ${date} placeholder, lockConfiguration (permanent).
'''

D['P22'] = '''
* Generated: format specifications of all specifiers, literal text and invalid specifiers; messages with placeholders, braces, format and null characters, multi-byte and long text; parameters of four types, too few and too many; all call
  forms at all levels, with and without location, on named and unnamed threads.
* Oracle: a renderer in the harness; date and time against the clock before and after.
* Not judged: a placeholder directly after an opening brace.
'''

D['P23'] = '''
* Generated: up to four threads logging in six namespaces while the main thread configures up to five times, with levels, formats, flushing, capturing streams and a log file.
* Oracle: what each stream received, per message; which configurations can apply to a call follows from counters read before and after it; TSan.
* Schedules are those the kernel produces with the planned pauses.
'''

D['P24'] = '''
* Generated: up to five groups (two of the same name in different namespaces, one named like a mangled type) with up to 160 tests; planned outcomes of setups, bodies and teardowns: pass, failed assertion, Balau, standard or unknown exception, ignored, raised SIGSEGV, SIGKILL or `_exit` (in the process models), output, pauses and long messages; selections by globs, on the command line or directly.
* Oracle: an independent glob matcher and outcome table; counters in shared memory; the parsed totals, log and Surefire reports; TSan for worker threads.
* Not judged: running the test runner twice in one process, control characters in reports, and the durations.
'''

D['P25'] = '''
* Generated: pairs of integers at the limits of their types, floating point values with zeros, infinities and NaN, strings of three character types derived from each other, containers, objects of a class hierarchy, functions that throw.
* Oracle: the relation computed in 128-bit or directly; the lines of both strings and the elements of both containers, with their markers.
* Not judged: the layout of the columns, and almost equal floating point values within rounding of the limits.
'''

D['P26'] = '''
* Generated: contents of several kinds with sizes around block sizes; gzip files by zlib with all levels, strategies, optional header fields and several members; splits of the hashed data with hashes asked for in between; key sizes for HMAC; files without permission (read as an unprivileged user).
* Oracle: zlib in both directions, OpenSSL for SHA-256, SHA-1, MD5 and HMAC, zlib for CRC32, a Keccak written from its specification for SHA-3 and Keccak.
* Not judged: corrupt gzip files (left to Boost), missing input files of gzip (nothing is documented), unaligned access by the hash library.
'''

D['P27'] = '''
* Generated: sequences of literal bytes, plus signs and escapes of valid, invalid and truncated UTF-8; the same with malformed escapes mixed in; parameter lists whose keys and values contain escaped delimiters; default and custom tables with paths of any case and number of dots.
* Oracle: a decoder written from the documented rules with its own UTF-8 check; the generated parameters; the table.
* Not judged: what exactly is dropped of a malformed escape (the text before it and from three characters after it must survive), empty parameters and keys, duplicate keys.
'''

D['P28'] = '''
* Generated: numbers of several types and all magnitudes, durations near the boundaries of units and of rounding, byte strings with any line length and group size, time points over three centuries with random formats.
* Oracle: the printed text is parsed (number, prefix, units) and compared with the value within half of the last printed place; printf for fixed and scientific notation; a calendar written independently; the real-time clock before and after.
* Not judged: whether a value that rounds up to the next prefix moves to it, the rounding of durations printed without decimal places (less than a second off), spaces at the end of lines of bytes, locale dependent specifiers, reading malformed durations.
'''

D['P29'] = '''
* Generated: vectors, deques and lists of numbers, strings and objects that count their copies; texts with any line ends and starting positions; sequences of creating, moving, clearing, executing and destroying scope guards; ranges of six number types with equal, adjacent, negative and extreme limits and seeds; UUIDs made by several threads; assertions in forked processes.
* Oracle: the standard algorithms, a list of the functions that must have run, the limits, the bytes, the exit status.
* Not judged: the distribution of random numbers beyond both halves of a range being hit, distributions that are not uniform, ranges of reals wider than the largest value, a scope exit function that throws.
'''

D['P30'] = '''
* Generated: for each variable unset, blank, padded with blanks or a folder; names; the directory absent, partly there or there with contents; umasks; several threads making the first call; users with and without a password entry, in child processes that have given up root.
* Oracle: the documented order of the variables, the password entries as the C library enumerates them, stat of the directory.
* Not judged: other white space around values, the mode of intermediate directories and of directories that exist with another mode, relative paths.
'''

D['P31'] = '''
* Generated: document roots with files of all sizes and extensions and files outside that must not be served; routing trees with shared, missing and null handlers; environment configurations of canned, failing, file serving and redirecting applications with any locations; sequences of requests (methods, targets that try to escape, HTTP 1.0 and 1.1, kept and closed connections, pipelined groups, sends cut anywhere); malformed and truncated requests, oversized fields and lengths, clients that reset the connection, handlers that throw; cookies that are right, forged or broken; clients in threads with a stop in between; histories of starting (both ways), stopping, destroying and occupying the port.
* Oracle: the files, the tree and the configuration as a model of which application answers with what; a strict parser of the answers, so that nothing may follow the last one; the number of open sockets of the process returns to that before the clients; a connection attempt tells whether a server accepts.
* The HTTP code was not compiled with the Boost release installed here; the first of the fix commits for this property makes it compile. The project's own build still leaves it out, so the check compiles it itself.
* Not judged: query strings and escapes in targets, WebSockets (unfinished in the code), the port zero, the namespace of the logger, names that contain two dots (400 is right), whether a HEAD answer without a length closes the connection, bodies over 8 MB, IPv6 addresses with ports in configurations.
'''

D['P32'] = '''
* Generated: clients from hosts and URLs, both schemes and versions, methods, paths, bodies up to 300 KB, statuses, fields and bodies framed by length, in chunks or by the end of the connection; email senders made in code (handlers, redirections, copies) or from a configuration, forms, message bodies from empty to 100 KB with lines that start with dots, refusals or hang-ups of the mail server at each stage, generators that throw.
* Oracle: what the servers of the harness receive (request line, fields, body; credentials, envelope, header, body of the message) and what they answered.
* Not judged: verification of certificates (neither the HTTPS client nor the email sender does), redirections, the text of errors, duplicated fields of forms.
'''
