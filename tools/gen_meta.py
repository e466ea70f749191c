#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing this file)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import props

M = "src/main.rs"
def P(id, title, statement, over, text, why, files, mech, observe):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))

UT = "The 18 unit tests look at single internal functions on a few literal inputs; "
ALL = [
 P("C01", "No document, request or command can crash or hang the server",
   "Whatever text is opened (valid or not, any Unicode), whatever positions, names, ranges, commands and arguments a client sends, and in whatever order, every handler returns: no panic, abort, overflow, endless loop or deadlock.",
   ["inputs", "histories"], "all texts, all request parameters, all request sequences",
   UT + "none calls a request handler, and no list of literals covers every malformed text, position or argument.",
   [M, "src/hir_tokenizer.rs", "src/hir_parser.rs", "src/hir_index.rs", "src/lsp_utils.rs", "src/rename.rs", "src/backtrace.rs"],
   [("error recovery", "src/hir_parser.rs parse_from_str"), ("checked position conversion", "src/lsp_utils.rs"), ("checked arithmetic", "src/rename.rs"), ("argument patterns", "src/main.rs execute_command")],
   ["every LSP request and notification"]),
 P("C02", "Positions and ranges are LSP positions in every text",
   "In every text, with any Unicode characters and LF or CRLF line breaks, each position and range that the server reports or accepts counts lines at LSP's line breaks only and columns in UTF-16 code units. Characters before a symbol, inside strings, comments or names, never shift what is reported.",
   ["inputs"], "all characters at all places of a text, both line breaks",
   UT + "they are ASCII only, and the tests never look at LSP positions.",
   ["src/lsp_utils.rs", M, "src/hir_tokenizer.rs", "src/semantic_token.rs"],
   [("character/UTF-16 conversion", "src/lsp_utils.rs lsp_pos_to_offset, offset_to_lsp_pos"), ("rope line model", "src/lsp_utils.rs create_rope")],
   ["definition, references, rename, diagnostics, outline, folding, lens, hint ranges"]),
 P("C03", "Semantic tokens colour exactly the lexemes of the text",
   "The semantic tokens of a document are in document order, do not overlap, do not cross line ends, and each covers exactly one lexeme (a part within a line, for a lexeme that spans lines) whose type matches its lexical class: comment, type, local or global name (variable), string, number, keyword (declare, define) or function modifier. No such lexeme is left out, and nothing else (white space, punctuation, plain identifiers, debug references) gets a token.",
   ["inputs"], "all texts over the lexical grammar",
   UT + "the token tests compare three literal texts, before the conversion to relative positions.",
   ["src/semantic_token.rs", "src/hir_tokenizer.rs"],
   [("classification", "src/hir_tokenizer.rs tokenizer; src/semantic_token.rs semantic_tokens_from_tokens"), ("relative encoding", "src/semantic_token.rs convert_to_lsp_tokens")],
   ["textDocument/semanticTokens/full"]),
 P("C04", "Go to definition, declaration and references find exactly the symbol's",
   "For a cursor on a symbol, definition, declaration and references return exactly the ranges at which this very symbol is defined, declared or used in the document, each once. Local names and labels belong to their function; global names and debug references to the whole document; names that differ in any character, in sigil or in function never mix.",
   ["programs", "inputs"], "all documents and all cursors",
   UT + "one literal document is indexed, names never collide, and no request is made.",
   ["src/hir_index.rs", M],
   [("use/def lists", "src/hir_index.rs create_index"), ("lookup", "src/main.rs get_use_def_ranges")],
   ["textDocument/definition, declaration, references"]),
 P("C05", "The symbol under the cursor is found at every position",
   "For every position of every document, the symbol that navigation and rename act on is the one whose characters contain the position: from its first character up to and including its last one, and none elsewhere. Positions beyond the end of a line or of the text find what lies at the line's end, or nothing, and never a symbol of another line.",
   ["inputs", "programs"], "all lines and columns (32-bit), all documents",
   UT + "no test asks for a position at all.",
   ["src/hir_index.rs", "src/lsp_utils.rs", M],
   [("ordered occurrence list and search", "src/hir_index.rs find_symbol_at_position"), ("clamping", "src/lsp_utils.rs lsp_pos_to_offset")],
   ["textDocument/prepareRename, rename, definition"]),
 P("C06", "Rename replaces exactly the symbol and only by a usable name",
   "A successful rename edits every definition, declaration and use of the symbol under the cursor, and nothing else; the sigil stays, given or not with the new name. A new name that would not be read back as a name of the same kind is refused with an error and no edit.",
   ["inputs", "programs"], "all documents, cursors and new names",
   UT + "the only rename test extracts the number of an identifier.",
   ["src/rename.rs", M, "src/hir_index.rs"],
   [("edit list", "src/rename.rs get_rename_edits"), ("name validation", "src/rename.rs is_valid_symbol_name"), ("sigil handling", "src/main.rs rename")],
   ["textDocument/rename, prepareRename"]),
 P("C07", "Shifting the numbering renames exactly the symbols from the number on",
   "Renaming a numbered symbol to +n or -n changes the number of every symbol of the same kind in the same function (or document, for global kinds) whose number is not smaller than the selected one by exactly n, in all of its occurrences, and leaves all others alone (a negative result loses its sign). A shift that is malformed or whose result does not fit is refused with an error and no edit.",
   ["inputs", "programs"], "all numbers, shifts and documents",
   UT + "no test computes a shift.",
   ["src/rename.rs", M],
   [("shift edits", "src/rename.rs get_shift_edits"), ("number extraction", "src/rename.rs extract_number_from_identifier")],
   ["textDocument/rename with a signed number"]),
 P("C08", "The numbering action is offered and resolved as negotiated",
   "The code action that shifts numbers is offered exactly for an empty selection on a symbol with a number. If and only if the client has announced both data support and lazy resolution of edits, the action comes without its edit, and resolving it yields exactly the edit that is delivered at once otherwise.",
   ["inputs", "configurations"], "all cursors and selections, all client capabilities",
   UT + "code actions have no test.",
   [M, "src/rename.rs"],
   [("negotiation", "src/main.rs initialize"), ("offer", "src/main.rs code_action"), ("resolution", "src/main.rs do_code_action_resolve")],
   ["textDocument/codeAction, codeAction/resolve, initialize"]),
 P("C09", "Undefined and duplicate symbols are diagnosed, exactly those",
   "Every use of a symbol without definition or declaration in its scope has a diagnostic at that use, every definition after the first one has a diagnostic at that definition with a reference to the first, both naming the symbol; there are no other symbol diagnostics.",
   ["programs"], "all documents",
   UT + "no test produces diagnostics.",
   ["src/diagnostics.rs", "src/hir_index.rs"],
   [("diagnostics from use/def lists", "src/diagnostics.rs diagnostics_from_index")],
   ["textDocument/publishDiagnostics"]),
 P("C10", "Syntax errors are reported exactly for texts outside the grammar",
   "A document of correct statements has no syntax diagnostic; a document with a statement outside the grammar, or one that ends too early, has at least one, located at the faulty statement. The correct statements before and after the faulty one are still understood.",
   ["inputs", "programs"], "all statements and all ways to damage one",
   UT + "a handful of literal statements is parsed; only two contain errors.",
   ["src/hir_parser.rs", "src/hir_tokenizer.rs", "src/diagnostics.rs"],
   [("grammar and recovery", "src/hir_parser.rs"), ("error conversion", "src/diagnostics.rs diagnostics_from_parser")],
   ["textDocument/publishDiagnostics"]),
 P("C11", "The control flow graph and incoming edges match the branches",
   "For a function, the graph shown to the user is a well-formed graph description whose edges are exactly the pairs of a labelled block and a target of one of its branch instructions. The hint at a block's label lists exactly the blocks that branch to it, each leading to that block's label; phi operands are no edges, the hint at a function's end leads to its name, and a branch whose targets cannot be recognised is diagnosed. A client that asks for a part of the document gets at least the hints of that part.",
   ["programs"], "all functions",
   UT + "branch targets are tested on literal instructions, graph and hints not at all.",
   ["src/control_flow_graph.rs", "src/hir_index.rs", "src/hir_parser.rs", M],
   [("branch targets", "src/hir_parser.rs"), ("graph", "src/control_flow_graph.rs"), ("incoming edges", "src/hir_index.rs create_index"), ("hints", "src/main.rs inlay_hint")],
   ["visualize-cfg command, hyperir/showDot request, textDocument/inlayHint, publishDiagnostics"]),
 P("C12", "What the server announces is what it does",
   "For every client, initialization succeeds and announces what the server does: whole texts on open and change, UTF-16 positions unless another encoding was agreed on, every implemented request, and the commands that its code lenses carry. What is announced is answered, every token type is in the announced legend, and every code lens can be executed.",
   ["inputs", "histories"], "all client capabilities and workspace settings",
   UT + "no test initializes the server.",
   [M, "src/semantic_token.rs"],
   [("capabilities", "src/main.rs initialize"), ("legend", "src/semantic_token.rs LEGEND_TYPE"), ("commands", "src/main.rs code_lens, execute_command")],
   ["initialize, initialized, shutdown, workspace/executeCommand"]),
 P("C13", "Outline, code lenses and folding follow the document's structure",
   "The outline lists exactly the global variables and function definitions with their names and ranges; exactly the functions with one definition have a graph lens, which works for that function; exactly the function definitions and basic blocks can be folded, from their first to their last line, and the summary of a block tells its number of instructions, that of a function its number of blocks.",
   ["programs"], "all documents",
   UT + "none of these answers has a test.",
   [M, "src/hir_index.rs", "src/hir_parser.rs"],
   [("outline", "src/main.rs document_symbol"), ("lenses", "src/main.rs code_lens"), ("folding", "src/main.rs folding_range"), ("spans", "src/hir_parser.rs")],
   ["textDocument/documentSymbol, codeLens, foldingRange"]),
 P("C14", "Backtrace hints show the right frame and the complete backtrace",
   "An instruction whose debug reference is annotated with a backtrace gets one hint directly behind the reference: the most relevant frame (translator frames in their order of preference, otherwise the first frame outside the code generator's own folders), shortened to at most 49 characters, and a full backtrace with every frame in order, each with its name (or its file name, if it has none) and location. Other instructions get none, and a client that asks for a part of the document gets at least the hints of that part.",
   ["inputs", "programs"], "all annotations and frames",
   UT + "they parse five literal frames and never build a hint.",
   ["src/backtrace.rs", M],
   [("frame parsing", "src/backtrace.rs parse_backtrace_from_json"), ("preference", "src/backtrace.rs identify_relevant_frames"), ("hint", "src/backtrace.rs inlay_hint_for_backtrace")],
   ["textDocument/inlayHint"]),
 P("C15", "Backtrace tooltips render as intended whatever the frames contain",
   "Rendered as Markdown, a tooltip is one list item per frame made of the frame's name as one code span and its location as plain text or as one link to the resolved file and line. No character in a symbol, path or file name can add markup, links, HTML or lines of its own.",
   ["inputs"], "all characters in symbols and paths",
   UT + "no tooltip is built by any test.",
   ["src/backtrace.rs"],
   [("sanitising", "src/backtrace.rs sanitize_markdown_code, escape_markdown_text, escape_markdown_url"), ("layout", "src/backtrace.rs format_frame_as_md")],
   ["textDocument/inlayHint tooltips"]),
 P("C16", "External definitions lead to the existing source file and line",
   "For a declared function whose debug annotation is a string of the form path:line, go to definition also leads to that line (counted from one; zero means the first) of the file under the first workspace root where it exists, and to nothing if it exists under none or the annotation has another form. The roots are the client's workspace folders in their order, or its root URI if it has no workspace folders. This holds for every function that refers to the annotation and wherever the annotation stands.",
   ["inputs", "configurations", "programs"], "all annotations, workspace roots, existing files and documents",
   UT + "one literal annotation is indexed; roots and files are never involved.",
   ["src/hir_index.rs", "src/backtrace.rs", M],
   [("association", "src/hir_index.rs create_index"), ("resolution", "src/backtrace.rs resolve_relative_path"), ("location", "src/main.rs get_use_def_ranges")],
   ["textDocument/definition, initialize"]),
 P("C17", "Answers and diagnostics always reflect the latest text of each document",
   "After any sequence of opens and changes of any documents, every request about a document is answered from its latest text alone, and each open or change with content publishes the diagnostics of exactly that text, once, with its URI and version. Documents never influence each other, and requests about unknown documents find nothing.",
   ["histories", "inputs"], "all sequences of notifications and requests over several documents",
   UT + "no test sends notifications.",
   [M],
   [("document map", "src/main.rs on_change"), ("synchronisation", "src/main.rs did_open, did_change")],
   ["all requests, textDocument/publishDiagnostics"]),
 P("C18", "Waiting for the client never blocks the server",
   "While the server waits for the client (to show one or two graphs, or to take a message), every other request and change about any document is still processed with the right result; the waiting command itself ends when the client answers, with success or with the client's error.",
   ["schedules", "histories"], "all interleavings of a waiting handler with other handlers, all client answers",
   UT + "no test runs two handlers.",
   [M],
   [("no document guard across waits", "src/main.rs execute_command, on_change")],
   ["workspace/executeCommand with concurrent requests and changes"]),
 P("C21", "Answers about any text, even a faulty one, fit the text and each other",
   "For every text, whether or not it follows the grammar: every range and position that is reported lies within the text and covers the characters of the name it is about; the symbol under the cursor contains the cursor and is itself among its definitions, declarations and references, which are distinct, carry the same name, and are the same from each of them; an undefined or duplicate symbol is diagnosed there; renaming edits exactly these places, and the renamed text has the same structure; every code lens works; tokens are in order and within their lines.",
   ["inputs"], "all texts, well-formed or not, all cursors",
   UT + "of the texts in tests, only two are malformed, and no answer about them is looked at.",
   ["src/hir_tokenizer.rs", "src/hir_parser.rs", "src/hir_index.rs", M],
   [("error recovery", "src/hir_tokenizer.rs tokenizer; src/hir_parser.rs parser"), ("index of partially parsed documents", "src/hir_index.rs create_index")],
   ["every LSP request about a document"]),
 P("C22", "Standard output carries protocol messages only",
   "The server talks to its client over standard input and output, and whatever the client sends, in whatever order, no handler writes anything to standard output itself: every byte there is part of a protocol message. Log messages, at any log level, go elsewhere.",
   ["inputs", "histories"], "all texts, requests, commands, answers of the client and message orders",
   UT + "no test calls a handler or looks at standard output.",
   [M, "src/hir_index.rs", "src/hir_parser.rs", "src/backtrace.rs", "src/rename.rs"],
   [("wiring", "src/main.rs main"), ("handlers", "src/main.rs impl LanguageServer for Backend")],
   ["standard output of the process"]),
 P("C19", "Messages on the wire are framed and answered one by one",
   "Every JSON-RPC request on standard input receives exactly one response with its id on standard output, whatever way the bytes arrive in pieces.",
   ["schedules", "inputs"], "all byte streams and arrival patterns",
   "No test starts the process.", [M], [("transport", "tower-lsp's Server (third party), src/main.rs main")], ["stdin/stdout of the process"]),
 P("C20", "The VS Code extension shows each graph it is sent",
   "For every graph the server asks to show, the extension opens the graph viewer or, if that is missing, a text document with the graph, and answers the server.",
   ["inputs", "fault_sequences"], "all graphs, viewer present or not",
   "The extension has no tests.", ["vscode-extension/src/extension.ts"], [("request handler", "vscode-extension/src/extension.ts activate")], ["hyperir/showDot"]),
]
NA = {
 "C19": "framing and dispatch are tower-lsp's and tokio's code, not this repository's; the checks replace that transport by a model, so nothing about it is decided",
 "C20": "TypeScript against the VS Code API, which is not installed here; there is no symbolic executor for it in reach",
}
NOTE = ("Every feasible path of the real handlers within the stated bounds is covered, each assertion decided by Z3 over all values; bounds are listed in the "
        "evidence and DESIGN.md. Trusted: rustc, LLVM's scalar optimiser, the executor in /verif/engine, the model of tower-lsp/tokio. Counterexamples are replayed natively.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in ALL:
        if p["id"] in props.PROPS or p["id"] in NA or True:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
na = [dict(property=p["id"], reason=NA.get(p["id"], "check under construction")) for p in ALL if p["id"] not in props.PROPS]
man = dict(version=1, setup_cmd="python3 check.py --setup",
           hooks=dict(guard="none", enable="no hooks: the checks link /repo's unmodified sources against a model of tower-lsp, tokio and env_logger", source_commits=[]),
           checks=[dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough", evidence_file=f"evidence/{p}.json",
                        technique="bounded symbolic execution of the server's LLVM IR, decided by Z3", level="other", level_note=NOTE) for p in sorted(props.PROPS)],
           not_applicable=na, notes="See DESIGN.md.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
