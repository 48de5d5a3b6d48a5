"""The checks: property -> harnesses, technique and texts."""
CHECKS = {}


def c(pid, harnesses, rule, technique, note, assumptions=(), level="model_checking"):
    CHECKS[pid] = {"harnesses": [h if isinstance(h, dict) else {"target": h} for h in harnesses], "rule": rule,
                   "technique": technique, "note": note, "assumptions": list(assumptions), "level": level}


c("C06", ["c06"],
  "every document up to 4 (thorough 5) symbols over {a, LF, CR, 2-, 3-, 4-byte characters} x every pair of positions (also beyond line and document) x 11 replacements, followed by an insertion at every position; all pairs of edits on documents up to 2 (3); all notification histories of depth 5 (6) over two documents; long documents; all byte strings up to 4 (5) over 17 boundary bytes read from disk. A case is non-trivial if at least one edit or byte is processed.",
  "exhaustive bounded enumeration of edits and notification histories on the real text store against a UTF-16 client model",
  "Exhaustive within the stated alphabet and depth; the client model is an independent UTF-16 array.",
  ["positions inside a surrogate pair and ranges with start after end are not sent by clients"])
c("C01", ["c01", "c01r"],
  "1-3 writers with 1-4 messages each, one reader, termination by another thread / after the writers / before / never, both overloads, both termination policies: every schedule with at most 2-3 (thorough 3-5) deviations (preemptions, spurious wake-ups); every single-threaded write/read word; deep fills. Non-trivial: at least two threads interact.",
  "stateless model checking of the real queue under a controlled scheduler (all interleavings up to a deviation bound)",
  "Every schedule within the deviation bound is executed on the real queue code compiled against scheduler-controlled mutexes and condition variables; sequentially consistent interleavings of synchronisation operations.",
  ["scheduling points are synchronisation operations; plain accesses between them are atomic unless the race detector reports them", "one reader per channel, as in the server"])
c("C02", ["c02", "c02r"],
  "every sequence of up to 3 requests over open/change/hover/response/file-less kinds and two files, one or two servers, 5 ways of finishing and stopping, and the whole channel-dispatcher-manager chain with shutdown/exit: every schedule with at most 1-2 deviations, plus longer fixed sequences. Non-trivial: reader, worker and closing thread interact.",
  "stateless model checking of the real request manager and dispatcher under a controlled scheduler, with a happens-before race and use-after-free detector on every schedule",
  "Every schedule within the deviation bound runs the real code; the log of each run is judged against the ordering, cancellation and shutdown rules.",
  ["scheduling points are synchronisation operations; races between them are reported by the race-instrumented run"])
c("C03", ["c03", "c03r"],
  "8 programs (open code, nested macros, loops, library members, continuation, empty) x stop on entry x break point sets x every command word up to 4 (thorough 6) over step over / step in / continue, then end, disconnect or destruction, through the debugger and through its DAP server (0- and 1-based, path and URI), checking location, stack and all variables at every stop; every schedule with at most 1-2 deviations for short words; every asynchronous command word up to 3 (4). Non-trivial: the session stops at least once or is commanded while running.",
  "stateless model checking of the real debugger under a controlled scheduler against a stop model computed from the statement trace, with a happens-before race and use-after-free detector",
  "The stop model is replayed against the real debugger on every script; schedules within the deviation bound are exhaustive.",
  ["the statement trace is taken from the analysis itself (and compared with a hand written one); its correctness is C12"])
c("C04", ["c04", "c04r"],
  "every sequence of up to 3 messages from 7 shapes, cut into two parts (single messages: three parts) at every byte, byte by byte, and with the stream ending at every byte; every Unicode scalar value; sizes around every power of 10 and 2 up to 10 MB; other headers in every place; malformed payloads in every place; every header token sequence up to 4 (thorough 5) tokens over 14; 2-3 concurrent writers and a concurrently fed reader in every schedule with at most 1-3 deviations. Non-trivial: at least one byte is read.",
  "exhaustive enumeration of message sequences, split points and header token words on the real channel against an independent framer, and stateless model checking of concurrent writers",
  "Exhaustive within the stated pools; every write into the stream is a scheduling point.")
c("C05", ["c05", "c05r"],
  "every conversation of up to 3 (thorough 4) steps over 16 kinds (language server requests, registration, debug requests, disconnect, dispose, malformed payloads, unknown and malformed sessions, odd JSON) for two sessions, with a client that waits for each answer, waits only at the end, or hangs up; every schedule with at most 2 deviations up to 2 steps, 1 for 3 steps, plus longer fixed conversations. Non-trivial: at least one message is sent.",
  "stateless model checking of the real server program (main.cpp with in-memory streams) against a routing model",
  "The routing model predicts every answer; each conversation is replayed on the real program under every schedule within the bound.",
  ["session identifiers are fresh, as the client generates them; a message without payload ends a session (the client's dispose)"])
c("C11", ["c11"],
  "every conditional assembly expression of the enumerated grammars: unary and binary arithmetic over boundary values, flat and parenthesised expressions of several operators, built-in functions in prefix and infix form, relational and logical expressions, string concatenation, substrings, duplication, conversions between the three types. Non-trivial: the expression has an operator.",
  "exhaustive bounded enumeration of expressions evaluated by the real analyzer against an independent reference evaluator",
  "The reference evaluator is written from the language definition and the repository's documentation; every enumerated expression is assembled by the real analyzer and the value is read back from the variable symbol.")
c("C12", ["c12"],
  "every program of up to 3 (thorough 4) slots, each with one of 3 sequence symbols and one of 10 branch, set and exit statements, in open code and as a macro called twice; 4 (5) slots over the branches; macro definitions between branches; every pair of two-statement macros with a two-statement caller over declarations, assignments, calls, exits and nested definitions; every word over definitions, calls and OPSYN; every word of 4 (5) assignments to scalars, arrays and created names; AREAD over every sequence of 3 (4) odd lines; loop and nesting limits. Non-trivial: a branch or call is taken.",
  "exhaustive bounded enumeration of programs run by the real analyzer and by an independent interpreter",
  "The interpreter is written from the language definition; each program's trace, variables and diagnostics are compared.",
  ["how deep macro calls may nest is the implementation's choice"])
c("C13", ["c13"],
  "every operand field up to 5 (thorough 6) symbols over commas, parentheses, apostrophes, blanks, letters, equal signs and ampersands, as macro operands written directly, split over continuation lines in the alternative format, and passed on through a variable symbol; every keyword / positional order; every &SYSLIST index. Non-trivial: the operand field is well formed and is decomposed.",
  "exhaustive bounded enumeration of macro calls run by the real analyzer against an independent operand decomposer",
  "The decomposer is written from the language definition; every parameter, sublist element, K' and N' value is read back from variable symbols.",
  ["the type attribute T' is not checked", "K' is checked for ASCII text"])
c("C14", ["c14"],
  "every program of up to 3 definitions over EQU of constants, the location counter, sums, differences, products, length attributes and DS with constant or symbolic lengths and duplication factors, referring to any of the symbols or an undefined one (so every definition order); 4 definitions over a smaller alphabet; chains of 5 (thorough 7); every expression of up to 3 terms (pairs of differences: 4) over relocatable symbols of two sections, absolute symbols and self-defining terms, defined before, after, or behind storage of unknown length; every sequence of 2-3 statements defining a label twice. Non-trivial: every program.",
  "exhaustive bounded enumeration of programs assembled by the real analyzer against a direct demand-driven solver",
  "The solver evaluates values, length attributes and sizes on demand with cycle detection; relocatability is a count per section.",
  ["which statement of a cycle is diagnosed is open", "the length attribute of an equate without length operand is left open"])
c("C15", ["c15"],
  "every program of up to 3 (thorough 4) statements over 22 storage statements and origins in one section; 5 (6) over sections, location counters, storage and origins; 5 (7) starting without a section; 4 (5) origins in a later location counter; 4 (5) with lengths and displacements defined later. Non-trivial: every program that is judged (an origin below the start of a later location counter is left open).",
  "exhaustive bounded enumeration of layout programs assembled by the real analyzer against a reference layout simulation",
  "The reference lays out location counters with a fixed point over their starts; every label's section and offset and the set of diagnosed statements are compared.",
  ["an origin before the start of a later location counter is left open", "programs of the known findings are left out of the enumeration"])
c("C17", ["c17"],
  "every program of 2 (3) statements over 15 kinds (assignments, branches both ways, labels, lookahead for attributes, errors, continuations, macro calls, other members) cut into COPY members in every way - one member, neighbours, nested two and three deep, empty - in open code and inside a macro definition called twice, in place or from a library; 4 (5) statements of control flow; definitions cut out of, into and across members; the same member copied 2-3 times directly and through others; three macros in every split between program and library; every COPY graph over three members and a missing one. Non-trivial: the program is diagnosed somewhere or a member is refused.",
  "exhaustive bounded enumeration of cut programs, each assembled by the real analyzer and compared with the inlined program",
  "The oracle is the program written in place, run by the same analyzer, with every reported place translated to where the text really is; refused members are predicted by an independent walk of the COPY graph.",
  ["a member never starts or ends inside a continued statement or a macro definition", "AREAD does not read from members in this version"])
c("C16", ["c16"],
  "every known type and extension x DC/DS x 6 duplication factors x 36 byte and bit lengths x 3-27 nominal values of its kind, at changing offsets; scale and exponent modifiers on both sides of their limits; every letter with every extension; every pair and triple from 24 operands (plain, bit-length, zero duplication, invalid) at several offsets. Lengths and duplication factors are constants, expressions and expressions of symbols defined later. Non-trivial: the operand has a modifier or a nominal value, or is refused.",
  "exhaustive bounded enumeration of data definitions assembled by the real analyzer against a reference table of the language",
  "The reference gives validity, storage, boundary and L', T', S', I' attributes; the attributes are read from the symbol, by conditional assembly before the definition (lookahead), after it, and in ordinary expressions.",
  ["values too large for their field are not judged", "the boundary of QD may be a doubleword or a quadword", "I' of bit lengths and of binary and decimal floating point is left open"])
c("C21", ["c21"],
  "each of the 1349 machine instructions and 938 extended mnemonics: every number of operands from none to two too many, at even and odd addresses; every operand varied over all forms (value, D, D(B), D(X), D(X,B), D(,B), omitted, relocatable, undefined) with the values at and beside both ends of every field, written directly and by symbols defined later; every pair of operands with every pair of variations; in the thorough tier also triples of operands over the ends of their ranges. Non-trivial: the instruction has operands.",
  "exhaustive bounded enumeration of machine instruction statements assembled by the real analyzer against a reference table of the instruction set",
  "The reference table was compared with the encoder of LLVM's SystemZ assembler for the numbers of operands, ranges, sizes and supplied operands of every instruction LLVM knows; acceptance, the place of every diagnostic, addresses and attributes are compared for every statement.",
  ["even/odd register pairs are not judged", "D(X,) and an omitted register in D(R,B) and D(V,B) are left open", "decimal terms end at 2147483647, so 32-bit fields accept every term"])
c("C07", ["c07"],
  "a workspace of two programs, two macros, a copybook, a second library and both configuration files, each in 2-4 variants (errors at definition, at call, nested use, missing, another definition than expected, malformed JSON): every history of up to 5 (thorough 6) editor events with one and two programs, up to 4 (5) events of members changed, created and deleted on disk, and up to 4 (5) configuration changes, after several starts; then everything is closed. Non-trivial: at least two events.",
  "exhaustive bounded exploration of event histories on the real workspace manager and a scratch disk, each compared with a fresh server given the final contents",
  "Diagnostics, semantic tokens, definition, references, hover and completion of every open file are compared; the reference is the same code without history, so only history dependence is judged.",
  ["every change on disk is reported to the server, as the client does", "which program is named as the user of a member is open when several programs use it"])
c("C08", ["c08"],
  "from 10 starts (programs, members and a copybook open), every open, change or close event is cancelled at every single poll of the cancellation flag (also from the beginning), optionally followed by requests, an event of another file, or another event of the same file cancelled at once (in short cases: at every poll again), and then by the request that caused the cancellation. Non-trivial: the event polls the flag.",
  "fault enumeration: every poll of the cancellation flag of every event of a history is used as cancellation point of the real analysis, and the result is compared with a server that was never cancelled",
  "The flag is a shim that counts its loads, so the enumeration of cancellation points is complete by construction for each event.",
  ["a request is cancelled only when a newer one for the same file arrives (C02), so that file is analysed once more"])
c("C10", ["c10"],
  "program patterns: every list of 1-2 (thorough: 3) mappings over 27 (36) names and wildcards with two groups and an unknown one, and every wildcard pattern of up to 3 (4) characters over 7, against 9 file names; libraries: every list of up to 2 (3) of 16 library entries x global extensions x alwaysRecognize x 13 disk contents; assembler options; every node of both configuration files replaced by 21 values or removed, every prefix of them, broken and repaired on the disk and in the editor; every history of up to 3 (4) edits with 0-11 diagnostics x local and global limits; every ordered set of up to 3 workspaces (nested, with common prefixes or names), optionally removed, x 8 places. Non-trivial: every configuration is observed through an opened program.",
  "explicit enumeration of configurations, run on the real workspace manager over a scratch disk; an independent reference reads the same JSON and computes groups, libraries, members, options, limits and diagnostics",
  "Observation from outside: definition of a macro, operation built from &SYSPARM, diagnostics, messages. Which of two files of one directory provides a member, duplicate group names, limits that are no count, an optional library that is a file are left open.",
  ["Linux paths, ASCII names"])
c("C20", ["c20"],
  "raw texts: all of up to 3 symbols over 19 (letters, separators, quotes, line ends, control, two- and four-byte characters, a byte order mark) and of up to 4 (thorough: 5) over 9, in open code and in a macro; statements: 66 operations (conditional assembly, assembler, machine, unknown, macro calls) x every operand field of up to 2 (3) tokens over 30, in open code, macros, members and lookahead, longer ones for selected operations; every sequence of up to 3 (4) lines over 26 and up to 4 (5) over 11, with and without the last line end. Non-trivial: the text has at least one diagnostic.",
  "exhaustive enumeration of all texts of bounded length over finite alphabets, each analysed by the real analyzer (twice, with and without highlighting or with correct statements after it) under a watchdog",
  "Judged: the analysis ends, every diagnostic names an existing file and lies within its text, tokens lie within the text, in order and in one line, diagnostics are the same each time and do not change when correct statements follow. A diagnostic may end one column behind the text (marker of a missing character); tokens may overlap (by design, a test expects it).",
  ["valid UTF-8", "no lone carriage returns"])
c("C18", ["c18"],
  "margins: the five (thorough: six) columns 70-74 of a character assignment over {blank, letter, apostrophe, 2-, 3- and 4-byte character} x 10 second lines x LF / CR LF x filled with ASCII or four-byte characters; sequences of up to 3 lines (4 in open code; thorough: everywhere) over 17 kinds (statements, continued ones, continued strings, comments of both kinds, continued comments, empty and blank lines, sequence fields, long lines, wide characters) x open code, macro, member, library macro x LF / CR LF x with and without the last line end; 12 statements with names, shifted so that every place of them falls on the margin, x open code, macro, member. Non-trivial: no statement is wrong.",
  "exhaustive enumeration of line layouts, run on the real analyzer; an independent reader joins the lines by columns and interprets the statements, or computes where every name was written",
  "Values of variables, presence of errors, the occurrences found by references, positions of diagnostics. What a continuation line has before its continue column is left open, ICTL is not implemented by the lexer.",
  ["valid UTF-8", "no lone carriage returns"])
c("C09", ["c09"],
  "token encoding: every ordered list of up to 4 (thorough: 5) tokens from a grid of 24; diagnostics: every sequence of 3 complete sets over three files with four lists each (related places, repeated entries, any characters); messages: every offered request and notification x 18 file names with special characters x 7 identifiers x 4 positions, what arrives at the workspace manager and what is answered; histories: every sequence of up to 3 (4) of 24 client messages (open, change, close, requests, configuration changed on disk, removed folder, 17 malformed messages) with the real workspace manager. Non-trivial: more than one token, or at least one diagnostic or answer.",
  "exhaustive bounded enumeration of messages and message histories on the real language server and its transport encoding; the client decodes everything and is compared with what the workspace manager (a stand-in with known answers, or the real one) gave",
  "Every response is matched with its request, every diagnostic the client shows is compared with the current ones after every message.",
  ["unknown methods are ignored by design", "Linux paths"])
