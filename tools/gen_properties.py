#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as python for readability)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
LS = "language_server/src/"; PL = "parser_library/src/"

p("C01", "Messages between server threads: exactly once, in order, and never stuck",
  "Every message handed to a channel between the server's threads is delivered to the reader exactly once and in the order it was written (per writer when there are several; a channel has one reader). A reader blocked on an empty channel always wakes up when a message arrives or the channel is terminated. Messages written before termination are still delivered or the reader is told the channel ended; after termination no reader blocks forever.",
  ["schedules"], "every interleaving of one or two writers, a reader and a terminating thread",
  "Unit tests run the queue in one or two lucky schedules; a lost wake-up or a reordered pair needs one specific interleaving.",
  [LS+"blocking_queue.h", LS+"json_queue_channel.h", LS+"json_queue_channel.cpp"],
  [("mutex + condition variable around a list", LS+"blocking_queue.h"), ("empty optional = terminated", LS+"json_queue_channel.cpp")],
  observe=["json_queue_channel::read/write/terminate"])

p("C02", "Requests are served once, in order, and shutdown never races a running request",
  "Every request read from a client is handled exactly once, in the order it was received, by the server it was addressed to, unless the server is told to stop before it is reached. A newer request for a file cancels the running analysis and marks older queued requests for that same file as superseded, and has no effect on work for other files. When a server asks for its requests to be finished, the call returns only after no request of that server is running or will ever run afterwards, without deadlock, and ending the worker always terminates.",
  ["schedules", "histories"], "every interleaving of reader, worker and closing threads for every short sequence of requests over files and servers",
  "Existing tests use a sleeping consumer and one schedule; the races are between the reader, the worker and shutdown.",
  [LS+"request_manager.cpp", LS+"request_manager.h", LS+"dispatcher.cpp"],
  [("queue mutex, condition variable, cancellation token", LS+"request_manager.cpp"), ("reader loop", LS+"dispatcher.cpp")],
  observe=["server::message_received", "cancellation token"])

p("C03", "Debug control: the debugger stops where it should and always obeys",
  "Whatever the timing of client commands relative to the running assembly, a debug session stops at exactly the statements that its breakpoints, entry stop and step-in / step-over / continue commands require, reports each stop once, and resumes on every resume command. While stopped, the stack, scopes and variables describe the statement it stopped at. Disconnecting (or ending the session) always terminates the run, whatever state it is in, with no crash, deadlock or lost command.",
  ["schedules", "histories"], "every interleaving of the assembling thread with the command thread, for every short sequence of debugger commands on representative programs",
  "Tests drive one polite command order with generous sleeps; lost wake-ups and early/late commands need particular interleavings.",
  [PL+"debugging/debugger.cpp", "parser_library/include/debugger.h", PL+"processing/processing_manager.cpp"],
  [("statement hook, control mutex and condition variable", PL+"debugging/debugger.cpp")],
  observe=["debug_event_consumer_s::stopped/exited", "debugger::stack_frames/scopes/variables"])

p("C04", "Message framing on the wire is lossless",
  "Any sequence of JSON messages written to the transport is read back as the same sequence, whatever their content (any Unicode, any size) and however the transport splits or delays the bytes; the announced length is always the byte length. Messages written concurrently never interleave on the wire. Malformed headers or payloads never crash, hang or make the reader deliver something that was not sent.",
  ["inputs", "schedules", "fault_sequences"], "every short sequence of messages x every chunking of the byte stream x every truncation point and header mutation; every interleaving of two writers",
  "Tests read a few complete, well formed messages from one buffer.",
  [LS+"base_protocol_channel.cpp", LS+"base_protocol_channel.h", LS+"stream_helper.h"],
  [("header parser, read_message, write mutex", LS+"base_protocol_channel.cpp")], observe=["base_protocol_channel::read/write"])

p("C05", "Messages reach the right session: routing and debug session life cycle",
  "Every message from the client is delivered to exactly one destination: the language server, or the debug session whose identifier it carries, in order, with the debug payload unwrapped unchanged; replies of a debug session reach the client wrapped with that session's identifier. A debug session starts when the client registers a fresh identifier, and ends when the client ends or disconnects it or the server stops, without affecting other sessions. No message addressed to an unknown, ended or malformed session crashes the server or is delivered elsewhere.",
  ["histories", "inputs", "schedules"], "every short history of LSP and DAP messages over two session identifiers, and every interleaving of session start/stop with message delivery",
  "Tests check one routed message and one session each.",
  [LS+"message_router.h", LS+"dap/dap_session_manager.cpp", LS+"dap/dap_session.cpp", LS+"dap/dap_message_wrappers.cpp"],
  [("first matching predicate wins", LS+"message_router.h"), ("session table and cleanup", LS+"dap/dap_session_manager.cpp")],
  observe=["json_sink::write of each destination"])

p("C06", "The server's text is always the text in the editor",
  "After any sequence of open, incremental or full-text change and close notifications, the text the server analyses is exactly the text the client would have after the same edits, where positions count lines (ended by LF, CR LF or CR) and UTF-16 code units and positions beyond a line or the document are clamped or ignored consistently. Changes after close, or to files never opened, never corrupt another document. Texts read from disk that are not valid UTF-8 are made valid.",
  ["inputs", "histories"], "every edit (every pair of positions, every replacement from an alphabet of line ends, ASCII, 2-, 3- and 4-byte characters) on every short document, and every short sequence of edits",
  "Tests apply a handful of edits to one or two documents.",
  [PL+"workspaces/file_impl.cpp", PL+"workspaces/file_manager_impl.cpp"],
  [("did_change and line index", PL+"workspaces/file_impl.cpp"), ("open file table", PL+"workspaces/file_manager_impl.cpp")],
  observe=["file::get_text", "workspace_manager::did_change_file"])

p("C07", "Results depend on the current files, not on how they got there",
  "After any history of opening, editing, saving, closing, creating and deleting programs, library macros, copybooks and configuration files, once every change was reported to the server, the published diagnostics, the highlighting and the answers to definition, references, hover and completion requests for the open files equal those of a fresh server given the same final contents and open files. Closing everything leaves nothing behind but what the configuration itself reports. (When several programs use a member, which of them is named as its user in a diagnostic is open.)",
  ["histories"], "every sequence up to a depth of document and watched-file events over a small workspace of programs sharing a macro and a copybook",
  "Tests replay a few hand-written histories; stale caches and dangling dependencies need particular orders of events.",
  [PL+"workspaces/workspace.cpp", PL+"workspaces/file_manager_impl.cpp", PL+"workspaces/processor_file_impl.cpp", PL+"workspaces/library_local.cpp", PL+"context/statement_cache.cpp"],
  [("dependants bookkeeping", PL+"workspaces/workspace.cpp"), ("library file list refresh", PL+"workspaces/library_local.cpp")],
  observe=["workspace_manager diagnostics consumer", "workspace_manager::definition/references/hover/completion"])

p("C08", "Cancelling an analysis at any point is invisible afterwards",
  "The analysis run for opening, changing or closing a document may be cancelled at any moment by a newer open or change of that document: the server then still answers every request without crashing, and once that newer notification was processed, diagnostics, highlighting and feature answers of all open files are identical to those of a server that was never cancelled.",
  ["schedules", "fault_sequences"], "every cancellation point (each poll of the cancellation flag) of the analysis triggered by each event of a history",
  "Tests never cancel inside an analysis.",
  [PL+"workspaces/processor_file_impl.cpp", PL+"processing/processing_manager.cpp", PL+"workspaces/workspace.cpp", PL+"lsp/lsp_context.cpp"],
  [("cancellation flag polled between statements", PL+"processing/processing_manager.cpp"), ("result replaced only by a complete analysis", PL+"workspaces/processor_file_impl.cpp")],
  observe=["workspace_manager"])

p("C09", "The language server speaks the protocol correctly",
  "Every well-formed client request of an offered method gets exactly one response carrying its identifier, and notifications get none; unknown or malformed messages never crash the server or silence later ones. The diagnostics a client has been told about, file by file, always equal the server's current ones - replaced or cleared when they change, with no stale, missing or duplicated entries. Semantic highlighting, positions and ranges are encoded so that a client decodes exactly what the analysis produced.",
  ["histories", "inputs"], "every short history of client messages over two files; every set of tokens from a small grid for the token encoding",
  "Language-server tests call single handlers with mocks and one message.",
  [LS+"lsp/lsp_server.cpp", LS+"lsp/feature_language_features.cpp", LS+"lsp/feature_text_synchronization.cpp", LS+"feature.cpp", LS+"server.cpp"],
  [("method table and responses", LS+"server.cpp"), ("publishDiagnostics bookkeeping", LS+"lsp/lsp_server.cpp"), ("relative token encoding", LS+"lsp/feature_language_features.cpp")],
  observe=["messages written by the server"])

p("C10", "Each program is analysed with exactly its configured libraries and options",
  "Which processor group a file belongs to (exact name or wildcard pattern, first match in file order), which library directories are searched and in which order, which file extensions and always-recognised patterns count, and which system parameter and diagnostics limit apply are exactly what the two configuration files (and the client's settings) say. A file is analysed in the innermost workspace that contains it. Malformed or missing configuration is reported as a diagnostic and never crashes or silently applies a stale or partial setup.",
  ["configurations", "inputs"], "every pattern up to a length over an alphabet with wildcards against every name; every configuration from a grid of valid and malformed variants and its effect on a workspace",
  "Tests contain a few fixed configurations.",
  [PL+"workspaces/workspace.cpp", PL+"workspaces/wildcard.cpp", PL+"workspaces/library_local.cpp", PL+"workspaces/processor_group.h", PL+"config"],
  [("load_and_process_config", PL+"workspaces/workspace.cpp"), ("wildcard translation", PL+"workspaces/wildcard.cpp")],
  observe=["workspace_manager diagnostics", "analysis results"])

p("C11", "Conditional-assembly expressions evaluate to their HLASM value",
  "Every arithmetic, logical and character conditional-assembly expression - operators, precedence, parentheses, built-in functions, substring and concatenation, attribute references, self-defining terms, and conversion between types - yields the value defined by the HLASM language for 32-bit arithmetic, Booleans and character strings. (As in HLASM, division by zero gives zero, AND, OR and XOR in arithmetic bind tighter than shifts, doubled ampersands stay doubled in character values.) Every expression that has no value (overflow, bad operand, bad subscript, malformed syntax) is diagnosed instead of silently producing one, and nothing crashes.",
  ["inputs", "programs"], "every expression up to an operator depth over boundary operands, for all operators and functions",
  "Tests sample a few values per operator.",
  [PL+"expressions/conditional_assembly", PL+"parsing/grammar/ca_expr_rules.g4", PL+"context/variables"],
  [("expression tree and evaluation", PL+"expressions")], observe=["SET symbol values after analysis", "diagnostics"])

p("C12", "Conditional assembly and macros run exactly as HLASM prescribes",
  "For every program of SETx, AIF, AGO, ANOP, ACTR, MEXIT, macro definition and call (including nested calls, nested and redefined macros, local and global variables, SET arrays and created names), the sequence of statements generated and the final variable values are those of the HLASM conditional-assembly semantics. A branch goes to the sequence symbol of its own scope, forwards or backwards; an undefined target is diagnosed and the branch is not taken; an exhausted branch counter is diagnosed and ends the macro or open code, so that analysis always terminates.",
  ["programs"], "every program up to a number of statements over a small statement alphabet, executed against an independent reference interpreter",
  "Tests contain hand-picked programs; interactions of forward jumps, scopes and nesting are combinatorial.",
  [PL+"processing/instruction_sets/ca_processor.cpp", PL+"processing/statement_processors/lookahead_processor.cpp", PL+"processing/processing_manager.cpp", PL+"context/hlasm_context.cpp", PL+"context/macro.cpp"],
  [("lookahead for forward jumps", PL+"processing/statement_processors/lookahead_processor.cpp"), ("scope stack", PL+"context/hlasm_context.cpp")],
  observe=["SET symbol values", "symbols generated", "diagnostics"])

p("C13", "Macro operands are passed and decomposed faithfully",
  "For every macro prototype and call, each positional, keyword and name-field parameter, &SYSLIST, sublist element at any nesting, and the N' and K' attributes have exactly the value defined by the text of the call operands and the prototype's defaults. Omitted, empty, quoted, parenthesised and excess operands are treated as HLASM specifies, and a bad call is diagnosed without affecting other parameters.",
  ["inputs", "programs"], "every operand string up to a length over an alphabet of commas, parentheses, apostrophes, ampersands and ordinary characters; every call up to three operands x prototype shape",
  "Tests pass a few typical operands.",
  [PL+"context/macro_param_data.cpp", PL+"context/macro.cpp", PL+"processing/instruction_sets/macro_processor.cpp", PL+"parsing/grammar/macro_operand_rules.g4"],
  [("string_to_macrodata", PL+"processing/instruction_sets/macro_processor.cpp")], observe=["SETC copies of parameters", "diagnostics"])

p("C14", "Ordinary symbols resolve to one value, independent of definition order",
  "Every ordinary symbol has the value, relocatability, length and type attributes that its defining statement gives it, whatever the order of definitions and uses, and however long the chains of references between them. Cyclic, missing and duplicate definitions are diagnosed (which statement of a cycle is open), and nothing else, and every expression combining absolute and relocatable terms has its arithmetic value and relocatability.",
  ["programs"], "every permutation of every set of up to four definitions (EQU, labels, DC/DS with symbolic lengths) with arbitrary references among them, against a direct solver",
  "Tests contain a few forward references; dependency resolution order is combinatorial.",
  [PL+"context/ordinary_assembly", PL+"expressions/mach_expression.h", PL+"expressions/mach_operator.h"],
  [("dependency tables, resolved eagerly when defined", PL+"context/ordinary_assembly/symbol_dependency_tables.cpp")], observe=["symbol values after analysis", "diagnostics"])

p("C15", "The location counter lays out sections as HLASM does",
  "For every sequence of section starts and resumptions, LOCTR switches, ORG (forward, backward, empty, with boundary and offset), aligned and unaligned data, machine instructions, and literal-free storage, every label's section and offset equal the HLASM layout rules (resumed sections and counters continue where they stopped, a location counter starts at the end of the previous one, an empty ORG goes to the highest address), including when an ORG or a length depends on later symbols. Invalid moves (before the section, cyclic, wrong section) are diagnosed.",
  ["programs"], "every program up to a number of layout statements over an alphabet of sections, location counters, origins and storage, against a reference layout",
  "Tests contain a few layouts.",
  [PL+"context/ordinary_assembly/location_counter.cpp", PL+"context/ordinary_assembly/location_counter_data.cpp", PL+"context/ordinary_assembly/section.cpp", PL+"processing/instruction_sets/asm_processor.cpp"],
  [("spaces for unresolved distances", PL+"context/ordinary_assembly/location_counter.cpp")], observe=["label addresses", "diagnostics"])

p("C16", "Data definitions have the right size, alignment and attributes",
  "For every DC, DS (and equate-like uses of their attributes) operand - duplication factor, type, extension, length and bit length, scale, exponent and nominal values - the storage reserved, the boundary it is aligned to, and the length, integer, scale and type attributes of its label are those defined by HLASM. Invalid operands are diagnosed and valid ones are not (truncation of magnitudes is not judged).",
  ["inputs"], "every type x extension x modifier combination x duplication factor x nominal value list from a grid",
  "Tests check a sample of types.",
  [PL+"checking/data_definition", PL+"expressions/data_definition.cpp", PL+"processing/instruction_sets/asm_processor.cpp"],
  [("per-type checker tables", PL+"checking/data_definition")], observe=["label addresses and attributes", "diagnostics"])

p("C17", "Copybooks and library macros behave as if written in place",
  "A program that takes text through COPY members (at any nesting, in open code or inside macro definitions) or takes macros from a library generates the same statements, symbol values and variable values as the program with that text written in place, and its diagnostics name the file and line where the text really is. (Members consist of whole statements and whole macro definitions.) Missing members and recursive COPY are diagnosed and never loop or crash.",
  ["programs"], "every way of cutting every short program into nested copy members and library macros, compared with the inlined program",
  "Tests have a few copy structures; jumps into and out of members multiply cases.",
  [PL+"context/hlasm_context.cpp", PL+"processing/statement_providers/copy_statement_provider.cpp", PL+"processing/statement_processors/copy_processor.cpp", PL+"context/statement_cache.cpp"],
  [("copy stack", PL+"context/hlasm_context.cpp")], observe=["analysis results", "diagnostics", "requested members"])

p("C18", "Source lines are read by the HLASM column rules",
  "For every source text, statements are formed by exactly the default begin, end and continue columns (1, 71, 16), continuation lines are joined where the continuation column is non-blank, sequence fields and comments are ignored, and every statement field and diagnostic is attributed to the source line and column where it was written. Line ends (LF, CR LF, none at end of file), very long lines and non-ASCII characters never shift or lose text.",
  ["inputs"], "every layout of a statement's text over up to three lines with every character of interest at each column near the margins",
  "Tests contain a few continued statements.",
  [PL+"lexing/lexer.cpp", PL+"lexing/input_source.cpp", PL+"parsing/parser_impl.cpp", PL+"semantics/range_provider.cpp"],
  [("column-driven lexer", PL+"lexing/lexer.cpp")], observe=["symbols and values", "semantic tokens", "definition positions", "diagnostics"])

p("C19", "Go to definition, references, hover and completion agree with the code",
  "At every position of every file of a program, go-to-definition leads to the place that defines the symbol, variable, sequence symbol, instruction or macro written there, find-references returns exactly the occurrences that lead to that same definition in its scope, and hover shows that item's current description. Completion offers exactly the items visible in that scope, and positions on no item yield the position itself / nothing.",
  ["programs", "inputs"], "every cursor position in every program from an enumerated family with shadowed names across open code, nested macros, library macros and copybooks",
  "Tests query a few positions of one program.",
  [PL+"lsp/lsp_context.cpp", PL+"lsp/file_info.cpp", PL+"processing/statement_analyzers/lsp_analyzer.cpp", PL+"processing/statement_analyzers/occurence_collector.cpp"],
  [("occurrence index per file and scope", PL+"lsp/file_info.cpp")], observe=["lsp_feature_provider"])

p("C20", "Any text is analysed to an end, deterministically, with well-formed results",
  "The analysis of any valid UTF-8 text, as a program, macro or copybook, terminates without a crash and gives the same diagnostics, highlighting and symbols every time. Every diagnostic and every highlighted token lies within the text of the file it names, with its start not after its end, and highlighting tokens come in order of their positions. Diagnostics of one statement do not disappear or change because of unrelated correct statements after it.",
  ["inputs", "programs"], "every text up to a length over an alphabet of significant characters and tokens, every statement skeleton with every operand mutation",
  "Tests use a fixed corpus; the fuzz target samples.",
  [PL+"analyzer.cpp", PL+"parsing/parser_impl.cpp", PL+"lexing/lexer.cpp", PL+"processing", PL+"semantics/collector.cpp"],
  [("error recovery in the parser and lexer", PL+"parsing")], observe=["analyzer diagnostics and semantic tokens"])

p("C21", "Machine instruction operands are accepted exactly when encodable",
  "For every machine instruction and mnemonic known, a statement is accepted without error exactly when it has an allowed number of operands of the right forms and every register, mask, immediate, length and displacement value fits the field it is encoded in (even/odd register pairs are not judged; vector registers 0 to 15). The instruction occupies the number of bytes its format prescribes, and operands that are out of range are always diagnosed at that operand.",
  ["inputs"], "every instruction x every operand position x every boundary value and operand form x operand count",
  "Tests check a few dozen of about two thousand instructions.",
  [PL+"context/instruction.cpp", PL+"checking/instr_operand.cpp", PL+"checking/instruction_checker.cpp"],
  [("instruction format tables", PL+"context/instruction.cpp")], observe=["diagnostics", "location counter"])
for x in P:
    assert len(x["title"]) <= 80, x["id"]
    for f in x["anchors"]["files"] + [m["where"] for m in x["anchors"]["mechanism"]]:
        if not os.path.exists("/repo/" + f): print("missing", x["id"], f)
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
