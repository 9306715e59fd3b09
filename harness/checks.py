"""What each check builds and runs. 'rule' is the non-triviality rule reported in the evidence."""
CHECKS = {
    'P01': {
        'sources': ['p01.cpp'],
        'rule': 'classification: every block of 256 code points of 0..U+1103FF is enumerated (each block counts), plus random values above; '
                'UTF-8: random texts, non-trivial with at least two multi-byte characters; random mixtures of whole, truncated and stray sequences, non-trivial when ill-formed',
    },
    'P02': {
        'sources': ['p02.cpp'],
        'rule': 'random texts over tiny alphabets (so that matches, overlaps and touching delimiters are frequent) with multi-byte characters; non-trivial per test: the searched text occurs, '
                'the case mapping changes the text, something is trimmed, a replacement takes place, at least two regex matches, at least two joined elements',
    },
    'P03': {
        'sources': ['p03.cpp'],
        'rule': 'random values of every numeric type biased to the limits and powers of ten, random numerals (well-formed, out of range, damaged), random texts and byte strings; non-trivial: '
                'numerals of more than two characters or outside the type, fractions, texts with multi-byte characters, non-empty byte strings, containers of at least two elements',
    },
    'P04': {
        'sources': ['p04.cpp'], 'flags': ['-DPBT_P04'],
        'rule': 'documents generated from a random structure (values, composites, comments, includes, escapes, continuations, four line-break styles); non-trivial with a composite, an escape or a '
                'continuation; malformed documents non-trivial when valid nodes precede the damage; arbitrary texts non-trivial from three bytes',
    },
    'P05': {
        'sources': ['p04.cpp'],
        'rule': 'generated documents and accepted random texts are printed and parsed again; non-trivial with a composite, an escape or a continuation (or more than two atoms); '
                'normalise() texts non-trivial when they contain a backslash',
    },
    'P06': {
        'sources': ['p06.cpp'],
        'rule': 'random token sequences (blanks, line breaks of four styles, multi-line comments, tokens with embedded line breaks) and random operation sequences of the scanner API; '
                'non-trivial with more than one line and more than two moves',
    },
    'P07': {
        'sources': ['p07.cpp'], 'modes': ['asan', 'tsan'], 'scale': {'tsan': 0.3},
        'rule': 'random operation sequences and random multi-threaded programs with random element move delays; sequential histories non-trivial when the ring wraps, '
                'concurrent ones when more than two operations per thread complete; each concurrent history is checked for linearizability',
        'assumptions': ['schedules are those the kernel produces with randomised delays; a concurrent failure is reported when it recurs for the same program within 300 runs'],
    },
    'P08': {
        'sources': ['p08.cpp'],
        'rule': 'random edit histories over up to ten vertices (int and string keys, with and without edge data), half of them kept acyclic; the whole graph is compared with the model at random points and at the '
                'end; non-trivial with at least three effective edits and two remaining relationships',
    },
    'P09': {
        'sources': ['p09.cpp'],
        'rule': 'random edit histories (15 kinds of edit at random nodes, few keys so that matches are frequent), searches along mostly existing chains, cascades of two random tries; '
                'non-trivial with at least five edits and depth two, cascades when the roots match and both tries have children',
    },
    'P10': {
        'sources': ['p10.cpp'],
        'rule': 'random hierarchies of up to four injectors (plain and prototype children) whose random bindings are spread over up to three configurations, added configurations and both creation forms; up to 34 '
                'requests of 26 kinds each; non-trivial with at least two injectors and more than four bindings, or with a duplicate binding',
    },
    'P11': {
        'sources': ['p11.cpp'], 'modes': ['asan', 'tsan'], 'scale': {'tsan': 0.2},
        'rule': 'random dependency tables of four classes (nine dependency forms), hierarchies of up to three injectors, construction faults, callbacks, static singletons, requests; concurrent programs of two to four '
                'threads; non-trivial with more than three bindings and two requests, a configuration fault or a construction fault; concurrent ones when a lazy singleton is requested',
        'assumptions': ['schedules are those the kernel produces with added yields'],
    },
    'P12': {
        'sources': ['p12.cpp'],
        'rule': 'random hierarchies of typed properties and defaults from up to two specification sources and a configure method, random property sources (up to three, cascaded, with nested included files), '
                'occasional bad values and incompatible specifications; non-trivial when refused, or when a composite or an included file and a specification are present',
    },
    'P13': {
        'sources': ['p13.cpp'],
        'rule': 'random option tables, final value modes and styles; argument lists built in the style with known meaning and occasional faults (unknown switches, missing option or final values), parsers reused; '
                'non-trivial with more than two arguments',
    },
    'P14': {
        'sources': ['p14.cpp'],
        'rule': 'URIs made of random components by the grammar (some at the length limit), damaged URIs and random bytes, random paths with dots, URLs with paths appended or resolved; '
                'non-trivial with an authority and further components, with "://", with "..", and all URL operations',
    },
    'P15': {
        'sources': ['p15.cpp'],
        'rule': 'directory trees of random files and directories with random names and contents, paths to existing and missing files in several notations; '
                'non-trivial with nested directories, with files that do not exist, and with relative paths that climb',
    },
    'P16': {
        'sources': ['p16.cpp'],
        'rule': 'histories of zip transactions (put, rename, delete, commit, abandon) over a small set of names and random contents, archives made by an independent writer (stored, deflated, encrypted), damaged archives; '
                'non-trivial with a commit and several changes, with several entries, and when the archive differs from the undamaged one',
    },
    'P17': {
        'sources': ['p17.cpp'],
        'rule': 'random programs of threads over one primitive with planned pauses and construction failures; non-trivial with several threads (semaphores: with decrements that have to wait)',
    },
    'P18': {
        'sources': ['p18.cpp'],
        'rule': 'random histories of forks, planned exits and signals, checks, waits and terminations; non-trivial with several forks and a report',
    },
    'P19': {
        'sources': ['p19.cpp'], 'flags': ['-fno-sanitize=vptr,alignment'], 'modes': ['asan', 'tsan'], 'scale': {'tsan': 0.2},
        'rule': 'random histories over up to three handles of one queue (time zones, priorities, oversize objects, timeouts); programs of producing threads or processes with planned pauses; non-trivial with '
                'oversize objects, priority reordering or timeouts, concurrent ones with several producers and oversize objects or consumers',
        'assumptions': ['schedules are those the kernel produces with planned pauses'],
    },
    'P20': {
        'sources': ['p20.cpp'], 'flags': ['-fno-sanitize=vptr'],
        'rule': 'random histories of creation, opening (three modes), writing, moving, forking over managed and unmanaged objects of four sizes; non-trivial with at least two openings, forks or moves',
    },
    'P21': {
        'sources': ['p21.cpp'], 'repo_sources': ['Balau/Logging/**/*.cpp'],
        'rule': 'random histories of logger requests, configurations (text, includes, placeholders, environment properties; applicable and not), resets, flushes and messages at all levels in all call forms; '
                'non-trivial with at least two delivered messages, a configuration and a logger that inherits',
    },
    'P22': {
        'sources': ['p22.cpp'], 'repo_sources': ['Balau/Logging/**/*.cpp'],
        'rule': 'random format specifications (all specifiers, text, invalid specifiers), namespaces, levels, call forms and messages (placeholders, surplus and missing parameters, braces, multi-byte and null '
                'characters, long texts); non-trivial with parameters that are placed and more than two format elements',
    },
    'P23': {
        'sources': ['p23.cpp'], 'repo_sources': ['Balau/Logging/**/*.cpp'], 'modes': ['asan', 'tsan'], 'scale': {'tsan': 0.5},
        'rule': 'random programs of up to four threads that log, request loggers and flush while the main thread reconfigures up to five times (levels, formats, streams, log file); non-trivial with several '
                'threads and a message that overlaps a reconfiguration',
        'assumptions': ['schedules are those the kernel produces with planned pauses'],
    },
    'P24': {
        'sources': ['p24.cpp'], 'repo_sources': ['Balau/Testing/Reporters/*.cpp'], 'modes': ['asan', 'tsan'], 'scale': {'tsan': 0.3},
        'rule': 'random test groups (up to 160 tests) with planned outcomes of bodies, setups and teardowns (passes, failed assertions, exceptions, ignored tests, signals, exits, log output, long messages), execution '
                'model masks, selections by globs, command lines, concurrency levels and report folders; non-trivial with more than two tests and a failure or a selection',
        'assumptions': ['schedules are those the kernel produces with planned pauses'],
    },
    'P25': {
        'sources': ['p25.cpp'],
        'rule': 'random pairs of related numbers, strings (with line breaks, NULs, up to 120 KB), vectors, sets and lists for each matcher, with and without locations, messages and printing, polymorphic objects and thrown exceptions; '
                'non-trivial when the values differ or have more than one element',
        'assumptions': ['the almost equal assertion on floating point values is judged away from the rounding of the limits'],
    },
    'P26': {
        'sources': ['p26.cpp'], 'flags': ['-fno-sanitize=alignment'],
        'rule': 'random contents from empty to over a megabyte with sizes around the block sizes, written by Balau or by zlib with random levels, headers and members, hashed from files, streams, strings and in pieces; '
                'non-trivial with more than 64 bytes',
        'assumptions': ['OpenSSL and zlib are right', 'the machine permits unaligned access'],
    },
    'P27': {
        'sources': ['p27.cpp'], 'repo_sources': ['Balau/Network/Utilities/MimeTypes.cpp'],
        'rule': 'random sequences of literal bytes, plus signs and escapes of valid and invalid UTF-8, with malformed escapes in the second test, parameter lists with encoded delimiters, and paths with tables; '
                'non-trivial with an escape, with more than one parameter or with a registered extension',
        'assumptions': [],
    },
    'P28': {
        'sources': ['p28.cpp'],
        'rule': 'random numbers of five types over 44 orders of magnitude, byte strings with line and group sizes, durations of five units around the limits of minutes, hours and days, time points with generated formats; '
                'non-trivial unless zero, empty or below a minute',
        'assumptions': ['the clock of the machine is not set during a case'],
    },
    'P29': {
        'sources': ['p29.cpp'],
        'rule': 'random containers, texts, sequences of operations on scope guards, ranges and seeds, sets of UUIDs and assertions; non-trivial with several elements, operations or a range of more than one value',
        'assumptions': ['the random device does not repeat 122 bits'],
    },
    'P30': {
        'sources': ['p30.cpp'],
        'rule': 'random combinations of set, blank, padded and unset environment variables, names, directories that exist already, umasks, concurrent first calls and users with and without an entry, each in its own process; '
                'non-trivial when the first variable does not decide, or the directory has to be created',
        'assumptions': ['the password file is readable'],
    },
    'P31': {
        'sources': ['p31.cpp'], 'repo_sources': ['Balau/Network/**/*.cpp', 'Balau/Logging/**/*.cpp'], 'modes': ['asan', 'tsan'], 'scale': {'tsan': 0.25}, 'flags': ['-O0'],
        'rule': 'random servers (document roots, routing trees, configurations, workers) and sequences of requests with methods, targets (escapes from the root included), versions, pipelining, cookies, malformed bytes and '
                'vanishing clients, histories of starting and stopping and concurrent clients; non-trivial with several requests that are served, several clients and workers or several starts',
        'assumptions': ['the loopback interface works', 'schedules are those the kernel produces'],
    },
    'P32': {
        'sources': ['p32.cpp'], 'repo_sources': ['Balau/Network/**/*.cpp', 'Balau/Logging/**/*.cpp'], 'flags': ['-O0'],
        'rule': 'random requests of the HTTP and HTTPS clients answered by a server of the harness (status, fields, body framed by length, chunks or the end), random forms sent to email senders whose messages are taken, refused '
                'or dropped at each stage by a mail server of the harness; non-trivial with a body in the answer or a delivered message',
        'assumptions': ['the loopback interface works', 'OpenSSL and Curl are right'],
    },
}
