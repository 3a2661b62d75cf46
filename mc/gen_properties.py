#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})
A, G, U, V, E = "src/args.cpp", "src/argument.cpp", "src/usage.cpp", "src/valid.cpp", "src/exception.cpp"
EH = "include/blet/args/exception.h"
AH, GH, UT, SI = "include/blet/args/args.h", "include/blet/args/argument.h", "include/blet/args/utils.h", "single_include/blet/args.h"
BASE = "The 18 stable tests call parseArguments only in a handful of fixed help/version cases; the parser's own test file is not even built here. "

prop("C01", "Every command-line token is accounted for exactly once",
 "For any set of definitions and any argv, parsing either throws the error the first offending token calls for, or assigns every token after argv[0] to exactly one place, verbatim and in order: an option occurrence, a value of one option or positional, the '--' separator, or the additional arguments. No token is lost, duplicated, truncated, altered or moved to another argument, and the existence flag, occurrence count and values of every argument are exactly those the documented grammar gives.",
 ["inputs", "configurations"], "All argument definitions (kinds, flags, order, required, defaults, strict/alternative modes) and all token sequences.",
 BASE + "The grammar is a product of kinds, positions and spellings: a mistake shows up only for particular neighbours in argv.",
 [A, G, UT, SI], [("parseArguments main loop", A), ("parseShortArgument_/parseLongArgument_/parseArgument_", A), ("parsePositionnalArgument_", A), ("endOfInfiniteArgument_", A)],
 [("index", "cursor in argv shared by all consumers", A), ("additionalArguments_", "surplus tokens", AH)], ["getArgument accessors", "getAdditionalArguments", "exceptions of parseArguments"])

prop("C02", "All documented spellings of an option use are equivalent",
 "Any use of an option gives the same result whichever documented spelling is used: any of its flags (short or long), value separate, attached with '=' or glued to the short flag, value-less short options written apart or clustered (with at most a last value-taking one), and '-name' for '--name' in alternative mode. This holds for any value text, including empty values and values that contain '=' or spaces or start with '-', for every occurrence and wherever the use stands in argv.",
 ["inputs", "configurations"], "All option kinds, all spellings of each use, all value texts, all short sequences of uses with other tokens around them.",
 BASE + "No stable test compares two spellings of one command line.",
 [A, UT, SI], [("cluster loop of parseShortArgument_", A), ("takeArg", UT), ("parseArgument_", A)], observe=["getArgument accessors", "exceptions"])

prop("C03", "'--' ends option interpretation for all that follows",
 "The first '--' in argv is dropped and every later token, including tokens spelled like a registered or unknown option and further '--', is used verbatim as a positional or additional argument, in order. Nothing before the '--' consumes it or anything behind it: an option or positional list that needs more values than stand before '--' is an arity error, and an unbounded one ends there.",
 ["inputs", "configurations"], "All definitions of options and positionals and all token sequences containing one or more '--' at any place.",
 BASE + "None of them uses '--'.", [A, UT, SI], [("endOptionIndex and endIndex passing", A), ("isEndOption branch", A), ("hasEndOption", A)], observe=["getArgument accessors", "getAdditionalArguments", "exceptions"])

prop("C04", "Arities are exact and unbounded lists end at the next known option",
 "An argument that takes n values takes exactly n tokens (verbatim, even if they look like options) or the parse fails with an error naming that argument; an attached value is refused by arguments that take no value or more than one. An argument taking an unbounded number of values takes all tokens up to the first one that starts with a registered option (any kind, any spelling), the '--' or the end, keeps unknown option-looking tokens as values; in groups of n only the first token of a group can end the list, the others are taken verbatim, and an incomplete last group fails.",
 ["inputs", "configurations"], "All value-taking kinds with n = 1, 2, 3 and more, followed by every short sequence of values, known and unknown option tokens, '--' and end of argv.",
 BASE + "Boundaries (exactly n-1, n, n+1 tokens left; list followed by each kind of option) are untested.",
 [A, SI], [("arity checks in parseArgument_", A), ("endOfInfiniteArgument_", A), ("parsePositionnalArgument_", A)], observe=["getArgument accessors", "ParseArgumentException::argument"])

prop("C05", "Positionals fill in order; the surplus is kept or refused",
 "Non-option tokens fill the positional arguments one after the other, the required ones first and each group in definition order, independently of where options stand between them. When all are filled, further tokens are the additional arguments, verbatim and in argv order; in strict mode the first such token makes the parse fail with an error naming that token.",
 ["inputs", "configurations"], "All lists of positionals (single, n, unbounded, groups of n; required or not; in any definition order, changed later), strict on/off, all interleavings with options.",
 BASE + "Only the listing order of positionals is tested, in the usage text.", [A, G, SI],
 [("parsePositionnalArgument_", A), ("compareOption_ (argument order)", G)], [("arguments_", "sorted list of definitions", AH)], ["getArgument accessors", "getAdditionalArguments"])

prop("C06", "Repeated occurrences: last wins, or accumulate in order; count is exact",
 "When an option occurs several times, one that stores a single value or list keeps exactly the last occurrence's values, and an append or extend option keeps the values (or groups) of all occurrences in argv order. The reported count is the number of occurrences on the command line in every spelling (for a positional 1 if filled), existence is count > 0, and a flag option reads true (store-false: false) iff it occurred.",
 ["inputs", "configurations"], "All option kinds and all sequences of up to k occurrences in mixed spellings, interleaved with other tokens.",
 BASE + "No test repeats an option.", [A, G, SI], [("parseArgument_ (clear on first occurrence)", A), ("count_/isExist_ updates", A)], [("count_", "occurrences", GH)], ["count", "isExists", "operator bool", "value accessors"])

prop("C07", "Defaults apply exactly when the argument is absent, and are replaced as a whole",
 "After a parse, an argument absent from argv holds exactly its declared default values (grouped by n where values come in groups) and reports itself as not existing; an argument present holds only the given values, with no default left over or mixed in. Declaring a number of defaults the argument cannot hold is refused, and the declared defaults remain readable unchanged whatever is parsed and whichever order the definition calls were made in.",
 ["inputs", "configurations", "histories"], "All value kinds, default lists of length 0..k, all orders of defaults/action/nargs/dest calls, all occurrence patterns.",
 BASE + "Defaults are only checked through one usage text.", [G, A, SI], [("defaultsConstructor_", G), ("clear on first value", A)], [("defaults_", "declared defaults", GH)], ["getDefault", "getDefaults", "value accessors"])

prop("C08", "A missing required argument is always reported, a present one never",
 "If parsing accepts the tokens and no help or version use takes precedence, it throws the required-argument error exactly when some required argument does not occur, naming the first such argument in listing order (positional message for positionals, option message for options). Declared defaults do not satisfy the requirement; any one of the flags of the argument, in any spelling, does.",
 ["inputs", "configurations"], "All subsets of required arguments of all kinds, with and without defaults, and all token sequences.",
 BASE + "One quick positional case at most reaches the requirement test.", [A, G, SI], [("require loop of parseArguments", A), ("required()", G)], observe=["ParseArgumentRequiredException::argument", "what"])

prop("C09", "Help and version take precedence as documented",
 "If all tokens parse and the help option was given, the outcome is help (exception carrying the usage text, or the usage on stdout and exit status 0) before any version, requirement or validation; otherwise the same holds for version with the version text; token errors come before both. When no help option is defined, the free ones of -h and --help become a help option at parse time, and a user's own argument with such a flag keeps its meaning.",
 ["inputs", "configurations"], "All combinations of own/automatic help and version options, exception modes, required/validated/defaulted other arguments and token sequences.",
 "The stable tests cover three fixed help/version calls; not precedence, exit status, clusters or partially taken -h/--help.",
 [A, G, SI], [("help/version blocks of parseArguments", A), ("automatic help option", A)], [("helpOption_/versionOption_", "owners of the actions", AH)], ["exceptions", "stdout and exit status", "argumentExists"])

prop("C10", "Parsing again is independent of what was parsed before",
 "A parse gives the same outcome, values, counts, defaults and additional arguments on an object that has already parsed any other command lines, successfully or not, as on a freshly built object with the same definitions. Definitions changed between two parses act as if they had been made before the first one.",
 ["histories", "inputs"], "All sequences of two or more parses over a command-line alphabet (including failing ones), with definition edits in between (other than taking -h/--help from the automatic help option), for all kinds.",
 BASE + "Parses of one object with different command lines in sequence are not compared with a fresh one.", [A, G, SI], [("clear_ at start of parseArguments", A), ("Argument::clear_", G)], [("argument values, count, existence, additional arguments", "state carried over", AH)], ["all accessors after each parse"])

prop("C11", "Names and arguments stay in one-to-one registry under any edit history",
 "After any sequence of add, flag, remove and clear calls, a name is known exactly if it was added and not removed since, each known name leads to exactly the argument it was added to, and an argument disappears exactly when its last name is removed. Every name has at most one owner: adding a used name, removing an unknown one, or a malformed call throws naming the offending name and changes nothing.",
 ["histories"], "All sequences up to depth k of addArgument/flag/removeArguments/clear with colliding one- and multi-name lists.",
 "Tests make one erroneous call each; no history with partial removals, re-adding or collisions in later list positions.",
 [A, G, SI], [("addArgument", A), ("removeArguments", A), ("flag", G)], [("argumentFromName_", "name to argument", AH), ("arguments_", "owned arguments", AH)], ["argumentExists", "getArgument/updateArgument identity", "getNameOrFlags", "exceptions"])

prop("C12", "Definition calls keep action, arity and behaviour consistent",
 "After any sequence of action, nargs, defaults, flag, required and dest calls, the way an argument consumes tokens and presents values is the one documented for its reported action and number of values. A combination that is not allowed is refused with an error naming the argument and leaves the argument as it was; at most one argument holds the help action and one the version action, and giving it up, moving to another action or removing the argument frees it.",
 ["histories"], "All sequences up to depth k of definition calls over all actions and nargs 0,1,2,3,'+', on options and positionals, one and two arguments.",
 "Tests exercise single transitions (undo of help/version) but not sequences, refused calls or what the argument then does.",
 [G, SI], [("typeConstructor_", G), ("action()", G), ("defaultsConstructor_", G)], [("type_/action_/nargs_", "kind of argument", GH), ("helpOption_/versionOption_", "owners", AH)], ["getAction", "getNargs", "behaviour of parseArguments", "exceptions"])

prop("C13", "Validators decide exactly as documented and transforms reach every reader",
 "For an argument that occurs, its validator sees exactly the parsed values in order, and the parse succeeds exactly if it accepts; a refusal raises the validation error naming the argument, and what the validator rewrites is what every accessor, number and destination then shows. The bundled validators accept precisely: texts that are entirely a decimal number, numbers within an inclusive interval given in either order, listed texts, and existing paths of the requested type; they are not run for an absent argument.",
 ["inputs", "configurations"], "All value-taking kinds and value lists over a text alphabet; interval bounds around each number; all kinds of file-system objects.",
 BASE + "No stable test runs a validator.", [V, A, SI], [("valid block of parseArguments", A), ("ValidNumber/ValidMinMax/ValidChoise/ValidPath::isValid", V)], observe=["ParseArgumentValidException", "value accessors", "destinations"])

prop("C14", "Destinations receive exactly the parsed value, converted and bounded",
 "After a successful parse each destination holds exactly what its argument holds: strings verbatim, fixed-size char arrays as the NUL-terminated longest fitting prefix, flags as true/false, numbers as the exact value when it is representable (a text with fraction or exponent as read in double precision; a bool is false exactly for zero), vectors with the same elements in the same order and vectors of vectors with the same groups. A custom conversion is called once per parse with the existence flag and the same values, and an empty list adds nothing to a vector.",
 ["inputs", "configurations"], "All destination types (bool, all integer and floating types, string, const char*, char[N], vector, vector of vectors, custom) by all kinds by value alphabets with boundary values and lengths.",
 BASE + "No stable test uses dest().", [GH, SI], [("strTo/boolTo overloads", GH), ("ArgumentType/ArgumentVectorType/ArgumentVectorVectorType::toDest_", GH)], observe=["user destination objects after parseArguments"])

prop("C15", "All readers of an argument agree with each other",
 "For every argument after any parse, the string form, the stream output, indexed access, size, vector and vector-of-vector conversions, number access and boolean conversion all present the same values; lists print as 'a, b' and groups as '(a, b), (c, d)'. A value is a number exactly when its text starts with a decimal number within the range of double, getNumber then returns it and otherwise throws, and conversions that do not fit the kind throw instead of returning something.",
 ["inputs", "configurations"], "All kinds and value lists over a text alphabet (numbers, signs, blanks, empty, text), present, absent and defaulted.",
 BASE + "Accessors are not compared by any stable test.", [G, GH, SI], [("getString and conversion operators", G), ("toNumber_", G)], observe=["getString, operator<<, operator[], conversions, isNumber/getNumber"])

prop("C16", "The usage text lists every argument once, correctly and in order",
 "The generated usage shows each defined argument exactly once in the synopsis and once in its section, with all its flags, its metavar or derived placeholder matching the number of values it takes, its help text, and '(required)' or its default values, bracketed in the synopsis exactly if optional. Options come before positionals in the synopsis; required options come before optional ones, short flags before long ones and then alphabetically, required positionals first and then in definition order.",
 ["configurations", "histories"], "All small sets of arguments over kinds, flags, required, defaults, metavar and help, in all definition orders and after edits.",
 "Tests compare four fixed usage texts; they sample neither orders, kinds in combination nor edits.",
 [U, G, SI], [("getUsage", U), ("compareOption_", G), ("metavarDefault_", G)], observe=["getUsage"])

prop("C17", "Usage layout keeps all text and the configured columns for any widths",
 "For any texts and any four widths, producing the usage terminates and contains every word of description, epilog and help in order, with nothing cut or repeated. Columns start where the widths say, an entry that does not fit its column moves its help to the next line, explicit newlines are kept, wrapped text lines break only at blanks, and a line is longer than the width only when it has no blank within its first width+1 characters.",
 ["inputs", "configurations"], "All width quadruples in a small grid including 0 and the defaults, by texts of words of lengths around each width, with newlines and runs of blanks.",
 "Tests use one non-default width and fixed texts.", [U, "include/blet/args/usage.h", SI], [("s_multilineWrap", U), ("getUsage column code", U)], observe=["getUsage"])

prop("C18", "No API history leaks, double-frees or touches invalid memory",
 "No sequence of definition, copy, removal, clear, parse and read calls makes the library access invalid memory, overrun a destination, leak or loop forever. A validator handed over for ownership is destroyed exactly once, no later than the object that owns it, and one handed over without ownership is never destroyed.",
 ["histories", "inputs"], "All sequences up to depth k of definition, ownership, dest, copy, remove, clear and parse calls, under address and undefined-behaviour checking, with byte-level token alphabets.",
 "Tests are not run under a memory checker and contain no such sequences.", [A, G, GH, SI], [("ownership of Argument and IValid", GH), ("dest() replacing the object", GH), ("removeArguments", A)], [("this_", "slot of the argument in the list", GH), ("validDeletable_", "ownership flag", GH)], ["sanitizer reports", "live validator instances"])

prop("C19", "Any argv ends in success or in a documented exception with the right name",
 "Whatever bytes argv contains, parsing terminates and either succeeds or throws one of the documented exceptions, never another type. The error class tells the cause (token, required, validation), its argument() names the offending option without dashes, the offending extra token, or the argument at fault, and its message is not empty.",
 ["inputs", "configurations"], "All byte strings up to length k over an alphabet of structural and high-bit characters, in one or more tokens, against definitions of every kind and both modes.",
 BASE + "None feeds malformed tokens.", [A, E, UT, SI], [("error throws of the parser", A), ("exception hierarchy", "include/blet/args/exception.h")], observe=["exception types and argument()"])

prop("C20", "The header-only form behaves like the compiled library",
 "A program built with the single-header distribution gives, for every definition history and command line, the same results, exceptions, messages and usage text as the same program built with the library sources. Both forms can be used from several translation units of one program.",
 ["programs", "inputs", "configurations"], "All programs in the bounded space of definitions and command lines used by the other properties, run in both forms.",
 "Each test is built in one form; nothing compares the two.", [SI, A, G, U, V], [("single header kept in step with src and include", SI)], observe=["complete observable transcript of both builds"])

prop("C21", "clear() returns the object to the state of a new one",
 "After any history, clear() leaves an object that behaves in every respect like a newly constructed one: no arguments, additional arguments, help or version owner, texts, modes or widths survive. The same definitions and command lines then give the same results as on a new object.",
 ["histories"], "All histories up to depth k over every setter, definition and parse call, followed by clear and a probe suite.",
 "No stable test calls clear().", [A, SI], [("Args::clear", A)], observe=["all getters", "getUsage", "parse outcomes after clear"])

prop("C22", "Parsing never modifies argv and a failing parse writes no destination",
 "Parsing leaves argc, the argv array and every byte of its strings unchanged, whatever the outcome. When it fails on a token, a missing required argument, or ends in help or version, no destination object is written or custom conversion called; an argument refused by its validator does not reach its destination.",
 ["inputs", "configurations"], "All token sequences in the alphabet, failing and succeeding, with destinations of all shapes on every argument.",
 BASE + "Destinations and argv are never inspected after failures.", [A, GH, SI], [("order of phases in parseArguments", A), ("toDest_ only after all checks", A)], observe=["argv memory", "destination objects"])

prop("C23", "Alternative mode only adds '-name' for '--name'",
 "With alternative mode on, '-name' (with or without attached value) means '--name' wherever that long option is registered, for every kind and place, including as the end of an unbounded list; every command line that uses no such token behaves exactly as with the mode off. With the mode off, '-name' is a cluster of short options.",
 ["inputs", "configurations"], "All definitions with long and short options sharing letters, both modes, all token sequences.",
 BASE + "One test only reads back the mode.", [A, SI], [("isAlternative_ branches", A)], observe=["parse outcomes in both modes"])

prop("C24", "Several parsers in one program do not influence each other",
 "Operations on one parser object, including parses started from inside a validator or conversion callback of another one, leave all results of any other parser object unchanged. Interleaving the call sequences of two objects in any order gives each exactly the results it would have alone.",
 ["schedules", "histories"], "All interleavings of two call sequences over two objects, and nested use from callbacks.",
 "Every test uses one object at a time.", [A, G, SI], [("all state is per object", AH)], observe=["all accessors of both objects"])

prop("C25", "Exactly the well-formed names and flags are accepted",
 "A lone name that does not start with '-' defines a positional if not empty; otherwise each name must be '-' plus one character or '--' plus at least one, and every other form is refused with an error naming it, by addArgument and flag alike, without changing anything. An accepted flag can then be used on the command line to reach exactly that argument.",
 ["inputs"], "All strings up to length k over a character alphabet, alone and in lists, through addArgument and flag.",
 "Tests probe about five malformed names.", [A, G, SI], [("validFormatFlag_", G), ("addArgument", A), ("isShortOption/isLongOption", UT)], observe=["exceptions", "getArgument", "parse outcomes"])

prop("C26", "All ways to write a definition are equivalent",
 "The same names, defaults or choices give the same argument whether passed as one string, C array, string array, initializer list, concatenation, the vector() helper with any number of elements, or added one by one with flag(), and whatever the order of independent setter calls. Duplicate flags in one list count once, and every setter's value can be read back unchanged.",
 ["programs", "configurations"], "All element counts of each form and all permutations of setter calls, with distinct elements at every position.",
 "Tests use two or three elements in one or two forms.", ["include/blet/args.h", "include/blet/args/vector.h", G, SI], [("Vector constructors and operator+", "include/blet/args/vector.h"), ("Args::vector overloads", "include/blet/args.h")], observe=["getNameOrFlags, getDefaults and the other getters", "parse outcomes"])

prop("C27", "Queries change nothing and are never out of date",
 "No query (usage text, existence, accessors, number access, conversions, stream output, copies of arguments, texts and modes) changes any later result, wherever it is made: between definition calls, between parses, after failing calls, or from inside a validator or conversion of a running parse. A query always reflects all calls made before it: asked twice in a row it answers the same, and it answers the same on an object that was never asked before.",
 ["histories", "inputs"], "All call sequences up to depth k over definition, edit, removal, clear and parse calls, with queries at every point.",
 BASE + "Tests query each object at one moment only, so an answer remembered from an earlier moment goes unnoticed.",
 [A, G, U, SI], [("getUsage", U), ("getArgument, operator[], argumentExists", AH), ("getString and conversions", G)], observe=["all accessors and getUsage at every point", "outcomes of later parses"])

prop("C28", "The order of definitions matters only between positionals",
 "The same definitions made in another order, with the positional arguments among themselves in the same order, give the same outcome, values and destinations for every command line, the same error for a failing one, and the same usage text. An argument that was added and removed again, at whatever moment and in whatever way its names were removed, leaves no trace in any of these.",
 ["configurations", "histories", "inputs"], "All permutations of all small sets of definitions over all kinds, and all moments of adding and removing one more.",
 BASE + "Every test defines its arguments in one order.",
 [A, G, SI], [("addArgument, removeArguments", A), ("compareOption_, sort of the argument list", G)], [("index_", "definition order", GH)], ["outcomes, accessors and destinations after parses", "getUsage"])

prop("C29", "A call that is cut short leaves nothing behind",
 "When a parse or a query is cut short by an exception, wherever it comes from (a validator or conversion of the user throwing any type, or memory running out at any point of a call on an object whose help option exists already), nothing is leaked or corrupted and the object stays usable: definitions and texts are as before, and the next parse gives exactly what it gives on an object that never saw the failure. What a callback throws reaches the caller of parseArguments unchanged, except that a validator's refusal is given the argument's name.",
 ["fault_sequences", "histories", "inputs"], "All allocations and all callback calls of every call as points of failure, over definition sets of all kinds with destinations and validators, all command lines of every outcome class before and after.",
 BASE + "No test lets a callback throw, and none can place a failure inside a call.",
 [A, G, GH, SI], [("parseArguments (no state kept across an exception)", A), ("toDest_ and validation calls", A)], [("argument values, existence, counts", "rebuilt by each parse", AH)], ["type and text of what is thrown", "outcome and all accessors of the next parse", "live allocations", "sanitizer reports"])

prop("C30", "The language standard does not change the behaviour",
 "A program that uses only what C++98 offers behaves the same whichever standard from C++98 to C++23 and whichever compiler and optimisation it and the library are built with: the same definitions are accepted and refused with the same texts, the same command lines give the same outcomes, values in accessors, number access, conversions and destinations of every type, and the same usage text; lists given in any of the forms available in C++98 mean the same everywhere.",
 ["configurations", "programs", "inputs"], "All pairs of language standards and compilers installed, by definitions of every kind with destinations, validators, conversions and layouts, and command lines over all value texts.",
 "The tests are built in one standard only; the code under the other branches of '#if __cplusplus' never runs.",
 [GH, "include/blet/args/vector.h", "include/blet/args/args.h", A, G, U, V, SI], [("#if __cplusplus branches", GH), ("Vector constructors", "include/blet/args/vector.h"), ("number conversion", UT)], observe=["complete observable transcript in each build"])

prop("C31", "Objects of different threads do not disturb each other",
 "Distinct parser objects, each used by one thread, may be defined, parsed, queried and destroyed at the same time. Under every interleaving of the threads each object gives exactly what it gives when it is used alone: outcomes, error texts, values, destinations and usage text; and no schedule crashes or blocks.",
 ["schedules", "programs"], "All interleavings of two threads, each running a complete program on an object of its own, over pairs of programs of every kind of argument, validator, conversion and query.",
 "Tests run one thread; whether two calls share memory shows only under particular interleavings.",
 [A, G, U, V, GH, UT, SI], [("parseArguments and getUsage keep their state in the object or on the stack", A), ("error texts", E)], observe=["transcript of each thread under each schedule"])

prop("C32", "What the synopsis shows can be typed, and what it demands is demanded",
 "Every command line formed from the synopsis of the usage text succeeds and gives each argument exactly the values typed for it: the flag shown, one value per placeholder, lists ('...') repeated at will, bracketed items in or out, the options in any order, the '--' where it is shown, positionals left out from the end only. A line that leaves out an item without brackets is refused with the error naming it, and one that gives a shown number of values one too few is refused. This holds in every layout, on new and on used objects; only a positional behind an unbounded one cannot be typed.",
 ["configurations", "inputs"], "All small definition sets (kinds, names, required, metavars, layouts, modes) and all command lines their synopses derive within the bounds.",
 "Tests compare usage texts with fixed strings and never parse what a usage text says.",
 [U, A, G, SI], [("synopsis in getUsage", U), ("metavarDefault_", G), ("parseArguments", A)], observe=["getUsage", "outcome and accessors of the derived command lines"])

prop("C33", "The order of independent uses on the command line does not matter",
 "A command line that consists of complete uses of options and of positional values gives the same outcome, values, counts, destinations and texts in whatever order the uses stand, as long as the uses of one option keep their order, the positional values keep theirs (a list of them staying together), and no positional follows an unbounded option list. A line refused in one order is refused in every order, with the same error when only one thing is wrong with it.",
 ["inputs", "configurations"], "All orders of all short sequences of uses over all pairs of option kinds with positionals, modes, requirements, defaults, destinations, validators and conversions.",
 BASE + "Every option is given in one order.",
 [A, G, SI], [("parseArguments main loop", A), ("parseArgument_", A)], observe=["outcomes", "accessors", "destinations", "getUsage"])

prop("C34", "What is handed in is copied, what is handed out stays valid",
 "Texts, lists, choices and command lines handed to a call may be overwritten or freed as soon as it returns. Exceptions and their copies, and copies of arguments, keep their contents whatever happens later, also after the parser object is gone. A reference to an argument stays valid and leads to the same argument until that argument is removed, cleared or given a destination, whatever is added, removed, sorted or parsed besides; texts behind const char* destinations stay as parsed until the next parse or a new definition of their argument.",
 ["histories", "inputs"], "All histories of definition, removal, destination, copy, parse and failing calls up to the bound, with every input released at once and every handle read again after every later call.",
 "Tests pass string literals and read every result at once.",
 [A, G, GH, E, EH, SI], [("Exception and ArgumentException (own their texts)", EH), ("addArgument and removeArguments (arguments never move)", A), ("ArgumentType (const char* destinations)", GH)], observe=["what() and argument() of kept exceptions", "accessors of copies and references", "destinations", "sanitizer reports"])
prop("C35", "Results depend on nothing but what is handed in, and nothing else changes",
 "Definitions, parses, queries, error texts and usage text give the same result in every surrounding: whatever the environment variables, the terminal, the clock, errno, the working directory, the state of the standard streams and descriptors, the collation of the locale, the previous contents of memory, the place of the call (during unwinding, in a handler, deep in a recursion, on another thread) and the placement of the tokens of argv in memory. Only ValidPath looks at the file system. Apart from the help or version text that the documented default prints, the library prints nothing and leaves environment, directory, umask, descriptors, signal handlers, locale, stream states and random numbers as they were. (The number format of the locale and the rounding mode are not covered.)",
 ["configurations", "inputs", "histories"], "All listed surroundings, one at a time and in pairs, around all programs and command lines up to the bounds.",
 "Tests run in one surrounding, the one of the build machine.",
 [A, G, U, V, GH, UT, SI], [("parseArguments", A), ("getUsage", U), ("conversions and destinations", GH), ("bundled validators", V)], observe=["outcomes, values, destinations, texts", "state of the process before and after"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
