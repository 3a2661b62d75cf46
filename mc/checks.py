"""Registry of the checks: how each one is built and what it covers."""
CHECKS = {}

RULE = ("a case is one definition set and one complete command line (or call history); every case of the stated "
        "finite space is executed on the real library once per distributed form; states are distinct canonical "
        "outcomes, transitions are tokens or calls processed")
T_MODEL = "stateless exhaustive exploration of the real code, every execution compared with an explicit reference machine"
T_DIFF = "exhaustive exploration of call histories on the real code, differential against the equivalent history"
N_MODEL = ("Complete up to the bounds in the evidence file; beyond them nothing is claimed. Trusts the reference machine "
           "(mc/model.hpp), which is bound to the code by comparing every explored execution with it.")
N_DIFF = ("Complete up to the bounds in the evidence file; both sides of each comparison are executions of the real "
          "code, so only the equivalence itself is trusted.")
A_MODEL = ["the grammar in README.md and properties.jsonl, written down as mc/model.hpp",
           "flags contain no '=' (a flag with '=' can be defined but not used; excluded from the alphabet)"]


def add(id, bounds, technique=T_MODEL, note=N_MODEL, level="model_checking", rule=RULE, assumptions=A_MODEL, **kw):
    kw.update(bounds=bounds, technique=technique, note=note, level=level, rule=rule, assumptions=assumptions)
    CHECKS[id] = kw


add("C01", ("45 pairs of option kinds x 6 positional lists x strict, token sequences <= 4 over 8 tokens; all kinds at once x alt, "
            "<= 3 over 19 tokens; kind x 2 positional kinds x required x defaults, <= 5 over 4 tokens; runs up to 26 values, 4 uses, arity 13",
            "as quick with sequences <= 6, <= 5, <= 7 and runs up to 60 values"))
add("C02", ("every documented spelling of: each kind x 20 value texts x surrounding uses; all pairs of kinds with 5 flags each; "
            "clusters of <= 5 flags with or without a final value; both modes",
            "as quick with all texts <= 3 over {-,=,b,s,blank}, all surroundings, clusters of 6"), technique=T_DIFF + " (rendered spellings)", note=N_DIFF)
add("C03", ("10 option kinds x 6 positional lists x strict: every prefix <= 3 over 6 spellings, then '--', then every suffix <= 2 over 8 tokens; "
            "long runs around the '--'", "prefixes <= 4, suffixes <= 3, longer runs"))
add("C04", ("value kinds and positional kinds x arities x token sequences around every boundary n-1, n, n+1, followed by each kind of option token, "
            "'--' or end; clusters and attached values", "as quick with longer sequences and higher arities"))
add("C05", ("all lists of positionals over 4 kinds x required x strict, token sequences with options between; later required() toggles; many positionals",
            "longer lists and sequences"))
add("C06", ("all option kinds x all sequences of occurrences in every spelling x surrounding tokens; large counts", "longer sequences"))
add("C07", ("all value kinds x default lists x all orders of defaults/action/nargs/dest calls x occurrence patterns; redeclared defaults",
            "longer default lists and call histories"))
add("C08", ("all subsets of required arguments among sets of kinds with and without defaults x token sequences; all kinds at once", "longer sequences"))
add("C09", ("own/automatic/partial help and version definitions x 3 exception modes (stdout and exit status observed in a forked child) x required/validated "
            "other arguments, token sequences <= 3 over every flag, <= 2 with 19 clusters added", "sequences <= 4, all modes <= 3"))
add("C10", ("all histories of parses over command lines of every outcome class, all kinds, with definition edits in between; 7 definition sets with destinations, validators and conversions x all pairs of 20 edits between parses", "longer histories"),
    technique=T_DIFF, note=N_DIFF)
add("C11", ("registry model explored to its fixpoint (5 flags, 2 names: 1015 states, every call from every state replayed on the object); "
            "all histories <= 4 over 25 calls; arguments with 1 to 40 names in 5 ways of definition and 4 orders of removal, with collisions", "as quick, histories <= 5, up to 70 names"),
    technique="explicit-state search of the registry model to its fixpoint with every transition replayed on the real object, plus all histories to a depth")
add("C12", ("all histories <= 4 of ~20 definition calls on a short option, a long option and a positional; ownership histories <= 4 of 23 calls on two options",
            "histories <= 5"), technique="stateless exhaustive exploration of call histories on the real code against an explicit definition machine")
add("C13", ("recording validators (accept, refuse, throw, rewrite, renumber; 5 ways of attaching) x 11 value kinds x required x defaults x token sequences <= 4; "
            "four validators at once in all 81 modes; ValidNumber on all texts <= 5 over {0,1,5,-,+,.,e,a}; 13x13 intervals x 59 texts; choice lists; 30 path objects x 3 modes",
            "sequences <= 5, texts <= 6, triples"))
add("C14", ("17 destination types x boundary and power-of-two/ten values x 9 ways to give the value; every value of char and short types; char[N] for 11 N with guard bytes; "
            "flags into 17 types; vectors of 9 element types x 9 list kinds x token sequences <= 4, groups into vectors of vectors; custom conversions x 13 kinds x sequences <= 4",
            "sequences <= 5, wider exponents, small integers in all spellings"))
add("C15", ("11 value kinds x value lists <= 2 over 27 texts, <= 4 over 7, up to 40 elements x present/defaulted/after another parse; all texts <= 5 over {0,1,5,-,+,.,e,a} as "
            "scalar, list element and group member; 14 kinds x command lines <= 5; every accessor compared each time", "lists <= 3 and <= 5, texts <= 6, lines <= 6"))
add("C16", ("all ordered selections of <= 3 of 25 arguments (every kind, several flags, required, defaults, metavar, help), <= 2 in 8 variants; all rotations of up to 25 arguments; "
            "up to 60 flags, arities, name lengths; all edit histories <= 4 of 20 edits; binary names", "selections of 4, edit histories <= 5"),
    technique="stateless exhaustive exploration of definition histories on the real code, generated text compared with an explicit model of its contents")
add("C17", ("84 and more width quadruples including 0 and the defaults x all texts of <= 2 words of lengths around the widths with 3 separators and 6 edges, "
            "<= 3 words with 5 separators; words around 56 and 80; entry names 3..30 x columns 0..32; synopses of <= 7 options and <= 4 positionals x widths",
            "all widths for 3 words, 4 words, every synopsis width"),
    technique="stateless exhaustive exploration on the real code, every generated text parsed back against a nondeterministic layout acceptor")
add("C18", ("all histories <= 3 of 32 definition/ownership/dest/copy/remove/clear/parse/read calls from a populated and from an empty object; <= 3 of 41 further calls (groups, conversions, bundled validators, refused calls), <= 2 of all 73; <= 4 of 16 calls that give, move and remove the help and version options of an empty object; all single tokens <= 4 bytes and pairs "
            "<= 3 bytes over structural characters; token sequences <= 5 for every kind and arity; char[N] destinations alone in heap blocks; usage for 780 width quadruples x 8 texts; "
            "every case under ASan/UBSan with live-allocation and live-validator counting",
            "histories <= 4, tokens <= 5 and <= 4, sequences <= 6"),
    technique="exhaustive exploration of bounded call histories of the real code, each execution monitored (ASan/UBSan, allocation and validator counters)",
    note="Complete up to the bounds; what counts as invalid is decided by the sanitizers and by the counters.", asan=True)
add("C19", ("4 definition sets (all kinds; alternative with byte-like flags; empty strict; required strict) x every token of <= 5 bytes over {-,=,b,s,n,z,0xE9,blank} alone and "
            "before a value, all pairs of <= 2 bytes, all triples of <= 2 bytes, every single byte 1..255 in 13 places, tokens up to 70000 bytes, 5000 tokens, odd argv[0]",
            "tokens <= 6 bytes, pairs <= 3 bytes"))
add("C22", ("13 kinds x 8 destination shapes (scalars, char arrays, vectors, vectors of vectors, custom conversions) x with/without validators: token sequences <= 3 over 10 tokens, with a required "
            "option, version and help around; all kinds together, sequences <= 3 over 15 tokens and <= 3 over 16 structural tokens; argv bytes, guard bytes and pointer array compared each time",
            "sequences <= 4"),
    technique="stateless exhaustive exploration of the real code, every execution monitored for writes to argv and to the destinations of failed parses")
add("C23", ("10 kinds of '--ab' beside -a, -b/--a and 5 further kinds, token sequences <= 4 over 10 tokens that are clusters and long names at once; clashing one-letter long names, sequences <= 3 "
            "over 20 tokens; help/version in alternative spelling; every kind x every neighbour: '-name' against '--name'; each run in both modes against the machine and against each other",
            "sequences <= 5"), technique=T_MODEL + "; differential between the modes")
add("C24", ("all 252 interleavings of each of 121 pairs of 5-call scripts (definitions, modes, texts, validators, destinations, failing and successful parses, clear, destruction) on two objects, "
            "both objects read completely after every call; every slice of every script run inside 6 kinds of callbacks of another parse over 5 command lines; all 90 interleavings of the first 2 calls of each of 286 triples of scripts (every script also run alone in a fresh process); triples of objects that differ in one letter of every name, value and text (every kind x 5 positional lists x 6 variants x about 12 command lines x 5 orders), which must show the same up to that letter and none of the others",
            "the first 3 calls of three scripts"),
    technique="exhaustive exploration of all interleavings of call sequences over several real objects, differential against running alone", note=N_DIFF)
add("C25", ("all strings <= 5 over {-,a,b,=,blank,0xE9}, every byte in 7 places, lengths around 16 to 1000: alone through addArgument, through flag() on an option and on a positional, in 7 list places; "
            "all pairs of strings <= 3 over 4 characters; every pair of 21 accepted flags x 9 kinds x 3 ways of adding x 5 command lines",
            "strings <= 6, all pairs of accepted flags <= 4 characters"))
add("C26", ("13 forms of a list x 1..20 elements x 3 orders as flags, defaults, choices and removal list; 16 literal forms; all 8! and 7! orders of setter calls on an option and a positional; "
            "all 7! orders of parser setters; 200 pairs of texts read back; toggles; all flag lists with duplicates <= 5 of 4 flags", "duplicates <= 6"),
    technique="exhaustive exploration of definition programs on the real code, differential against the definition made one call at a time", note=N_DIFF)
add("C20", ("transcripts (results, exceptions, messages, usage) of both builds compared case by case: 10 kinds x 6 positional lists x 4 variants x command lines <= 3 over 10 tokens; tokens <= 4 bytes in both modes; "
            "definition histories <= 3 of 31 calls; 1176 usage layouts; texts of every length 0..130 at the default layout after 8 histories with clear(); synopses of 24 definition sets at every width 0..90; conversions of 280 texts into 15 types and by 8 validators; a second translation unit with all command lines <= 4 over 9 tokens",
            "command lines <= 4, tokens <= 5 bytes, histories <= 4"),
    technique="exhaustive lockstep exploration of both distributed forms, complete observable transcripts compared case by case; a program that builds with the library but not with the header is a violation",
    note="Complete up to the bounds; the two forms are compared with each other, what is right is decided by the other properties.", extra_src=["C20b.cpp"], transcript=True, both_forms=True)
add("C21", ("all histories <= 3 of 29 setter, definition, removal, parse and clear calls, <= 2 of these with 24 more (destinations, validators, copies, refused calls), then clear() and 6 probe scripts (definitions, modes, widths, 13 parses) compared with a new object; clearing twice; help and version endings after clear() in forked children",
            "histories <= 4"),
    technique="stateless exhaustive exploration of call histories on the real code, differential against a new object", note=N_DIFF)

add("C27", ("all histories <= 3 of 28 definition, removal, setter, clear and parse calls, each executed without queries and with every query (usage, accessors, copies, conversions, streams) "
            "after each call, in 2 to 8 orders, and from inside validators and conversions; then two further parses", "histories <= 4"), technique=T_DIFF, note=N_DIFF)
add("C28", ("every set of up to 4 of 14 definitions (all kinds, required, defaults, destinations, validators, help, version, 4 positionals) in every order x about 15 command lines; every set of up to 3 with each "
            "further definition added and removed at every pair of moments in 3 ways; all definition programs <= 8 of adding options, positionals and up to 5 further arguments that are removed oldest or newest first; every pair and a sixth of the triples of about 90 name shapes in every order", "sets of up to 6 in every order, of up to 4 with a removed one"),
    technique="exhaustive exploration of all permutations of definition programs on the real code, differential against one order", note=N_DIFF)

add("C29", ("7 definition sets with destinations, validators and conversions and 22 sets of every kind x 11 to 20 command lines: every single allocation of the parse fails in turn (also twice in a row), then every "
            "following command line; every allocation of 12 queries fails in turn; every callback throws values of 7 types in turn", "every combination of line, fault point and following line"),
    technique="exhaustive fault injection on the real code (every allocation and every callback of a call fails in turn), differential against an object that was never interrupted",
    note="Complete up to the bounds; runs under address and undefined-behaviour checking with live allocations counted. Allocation failures in definition calls are not covered.", asan=True)

add("C30", ("10 builds (gcc and clang, C++98 to C++23, -O1 to -O3) of each form of the library in one process, complete transcripts compared case by case: every kind x destination x 9 validators x defaults x 36 value texts; "
            "900 layouts; lists of 1 to 12 entries in 4 forms x 8 mistakes; structural and history parts of the sweep in the gcc builds", "the whole small sweep in all 10 builds"),
    technique="exhaustive lockstep exploration of builds in every language standard, complete observable transcripts compared",
    note="Complete up to the bounds; the builds are compared with each other, what is right is decided by the other properties.", world_src="C30w.cpp",
    worlds=[("gcc11", "g++", "c++11", ["-O1"]), ("gcc98", "g++", "c++98", ["-O1"]), ("gcc14", "g++", "c++14", ["-O2"]), ("gcc17", "g++", "c++17", ["-O1", "-DNDEBUG"]),
            ("gcc20", "g++", "c++20", ["-O2"]), ("gcc23", "g++", "c++23", ["-O1"]), ("gccO3", "g++", "c++11", ["-O3", "-DNDEBUG"]),
            ("clang98", "clang++", "c++98", ["-O1"]), ("clang11", "clang++", "c++11", ["-O1"]), ("clang20", "clang++", "c++20", ["-O2"])])

WRAP = "memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy strcat snprintf sprintf strtok setlocale localtime gmtime rand strerror getenv setenv chdir".split()
add("C31", ("every pair of 50 programs (every kind with destinations, validators, conversions, layouts, refused definitions and command lines, in two wordings) on two threads; no conflicting access: both serial schedules stand for "
            "all; otherwise every schedule with up to two preemptions at the conflicting accesses (the first 400 of each thread for one preemption, 25 x 25 for two)", "the same with 20 times as many two-preemption schedules per pair"),
    technique="stateless exploration of schedules of the real code under a controlled scheduler: dependent accesses found by instrumentation, partial-order reduction where there are none, all schedules up to a preemption bound where there are",
    note=N_DIFF, extra_src=["C31rt.cpp", "C30w.cpp"], plain_src=["C31rt.cpp"], cflags=["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DWORLD=plain", "-fno-builtin-memcpy"],
    libs=["-Wl," + ",".join("--wrap=" + f for f in WRAP), "-lpthread", "-ldl"])

add("C32", ("every option kind x 6 shapes (one flag, three flags, metavar, defaults) x 2, 3, 5 values x 10 positional lists x required/strict/alternative x orders x 3 layouts; every ordered pair of kinds x 10 lists x 16 modes; "
            "every triple x 5 lists x 2 modes; per set every subset of the optional items, 1 to 3 repetitions, both orders of the options, plain and odd values and values spelled like options, on a new and on a used object; every required item left out", "triples x 10 lists x 8 modes"),
    technique="the usage text is read back as a grammar and every command line it derives within the bounds is executed on the real code", note=N_DIFF)

add("C33", ("every pair of option kinds x modes x required/defaults x 0 to 2 positionals: every sequence of up to 3 (one mode each: 4) complete uses (3 or 4 ways per option, 2 words, an unknown option, help) against the sorted one; two uses of each option with the words in every order (90); "
            "positional lists; 7 sets with destinations, validators and conversions, every sequence of up to 4 uses", "sequences of up to 5 uses"),
    technique="exhaustive exploration of all orders of command-line uses on the real code, differential against one order", note=N_DIFF)

add("C34", ("all histories <= 3 of 29 calls (definitions from lent texts, destinations, copies, removal, clear, refused calls, 6 command lines), every text handed in overwritten and freed when the call returns, against a twin that keeps them; "
            "every exception, copy, reference and const char* handed out read again after every later call and after the end of the object; under ASan", "histories <= 4"),
    technique="exhaustive exploration of call histories on the real code, each execution monitored (ASan, released and overwritten inputs, re-reading of every handle), differential against a twin whose inputs live on", note=N_DIFF, asan=True)

add("C35", ("74 surroundings (environments, answers of terminal and clock, errno, contents of new memory and of the stack, states of the standard streams, closed descriptors, working directories, collation, place of the call, layouts of argv), "
            "one at a time and all pairs, x 7 sets with destinations, validators and conversions x 20 edits x 9 command lines, all pairs of command lines, and 16 layouts and modes with every kind; state of the process compared before and after; the common sweep in ten surroundings at once", "all pairs of surroundings everywhere"),
    technique="exhaustive exploration of surroundings and call histories on the real code, differential against the plain surrounding, every execution monitored for changes of the process", note=N_DIFF, libs=["-lpthread", "-ldl"])

# The common sweep (mc/grand.hpp): one finite space of definition sets, earlier
# command lines and command lines, executed by the checks below with their own
# visitor.  size -> (quick, thorough)
SWEEP = {
    2: ("the common sweep, medium size: ~2.4 million cases (12 option kinds x 5 positional lists x modes x required/defaults x token sequences <= 2 over 33 tokens and <= 4 over 11; "
        "57 value texts x 9 spellings x following texts; all pairs and runs of earlier command lines; counts and lengths up to 300; every pair of kinds x sequences <= 4; up to 61 options and 20 positionals)",
        "the common sweep at full size"),
    1: ("the common sweep, small size: ~350 thousand cases (12 option kinds x 5 positional lists x modes x token sequences <= 3; value texts x 9 spellings; earlier command lines; counts up to 33; "
        "every pair of kinds x sequences <= 3; up to 20 options and 20 positionals)",
        "the common sweep at full size"),
}
for _p in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C15 C19 C23".split():
    CHECKS[_p]["bounds"] = tuple(b + "; " + s for b, s in zip(CHECKS[_p]["bounds"], SWEEP[2]))
for _p in "C10 C11 C12 C13 C14 C18 C20 C21 C22 C24 C25 C27 C28 C34 C35".split():
    CHECKS[_p]["bounds"] = tuple(b + "; " + s for b, s in zip(CHECKS[_p]["bounds"], SWEEP[1]))
