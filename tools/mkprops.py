#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as one readable source)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({
        "id": id, "title": title, "statement": " ".join(statement.split()),
        "quantifier": {"over": over, "text": " ".join(text.split())},
        "why_tests_cant": " ".join(why.split()),
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None},
    })

DOCP = "mau/parsers/document_parser.py"
TXT = "mau/parsers/text_parser.py"
LEX = "mau/lexers/document_lexer.py"
INC = "mau/parsers/document_processors/include.py"
VIS = "mau/visitors/base_visitor.py"
JIN = "mau/visitors/jinja_visitor.py"
API = "Mau.process / Mau.run_lexer / Mau.run_parser / Mau.run_visitor with the core visitors"

prop("C01", "Any text is either rendered or rejected with a Mau error; always ends",
 """For every text, processing it either returns a rendered result or raises a MauException carrying a message;
 no other exception escapes and processing always terminates. This holds for syntactically broken text, for every
 mixture of constructs nested up to 40 levels, and with any set of string variables in the environment.""",
 ["inputs", "configurations"], "all UTF-8 texts (any length, any mixture of Mau constructs, including truncated and mutated ones), with any string variables defined",
 "The tests feed a few dozen well-formed snippets per construct; the set of texts is infinite and crashes hide in odd combinations (empty pieces, unclosed constructs, constructs cut by the end of the input).",
 ["mau/lexers/base_lexer.py", LEX, "mau/parsers/base_parser.py", TXT, "mau/parsers/managers/tokens_manager.py", VIS],
 [("try/rollback of processing functions and the final 'Cannot parse token' error", "mau/parsers/base_parser.py parse()"), ("loop detection", "base_lexer/base_parser")],
 [API])

prop("C02", "Errors are reported once and point at the offending construct",
 """When a text contains one ill-formed construct, processing delivers exactly one error message to the message handler,
 the raised exception carries that same message, and the message names the source file and the line of the offending construct.
 This is true wherever the construct is: at the top level, after other content, inside nested blocks or inside an included file.""",
 ["inputs"], "all valid documents with one fault injected at any place (every kind of lexer, parser and visitor error), at any block or include depth",
 "Tests trigger each error once, at line 0 or 1 of a tiny text, and rarely check where the error points when the construct is nested.",
 ["mau/__init__.py", "mau/message.py", "mau/text_buffer.py", LEX, DOCP, INC],
 [("Mau.run_* send the message of a MauException to the handler and re-raise", "mau/__init__.py"), ("contexts carried by tokens, start_line passed to nested lexers", "mau/parsers/base_parser.py lex_and_parse")],
 ["message handler calls", "MauException.message"])

prop("C03", "Output depends only on the text, the files and the configuration",
 """Processing the same text with the same configuration (an environment, to which a text adds the variables it defines) gives the same result every time: independently of what was processed
 before (also when it failed), of the hash seed of the interpreter, and of other documents processed in between lexing, parsing and rendering.
 Rendering the same parsed document again, or with another visitor in between, does not change the result.""",
 ["histories", "schedules", "inputs"], "all sequences of documents processed in one interpreter, all interleavings of their lex/parse/render steps, all hash seeds",
 "Each test processes one document once in a fresh object; leaking state (class attributes, mutable defaults, shared dictionaries, consumed arguments) needs histories.",
 ["mau/__init__.py", DOCP, VIS, JIN, "mau/nodes/node.py", "mau/environment/environment.py"],
 [("managers and buffers are created per parser", DOCP), ("visitors do not modify nodes", VIS)],
 [API])

prop("C04", "Tokens and nodes carry the exact position of their source text",
 """Every token produced by lexing a document is found in the source exactly at the position it declares, tokens appear in source order,
 and only whitespace and comments are not covered by a token. Every rendered node created from text on a single line declares the position
 that exactly delimits the markup it was created from (for an inclusion, its operator and type), and nodes spanning several lines declare their first
 and last line, also inside nested blocks and included files. Nodes that only hold others (labels, footnotes, items of a ToC, of a list of footnotes
 or of a block group) declare no position; the columns inside of a line where variables or escaped braces are replaced, or inside of a macro argument
 with escaped characters, are those of the text after the replacement.""",
 ["inputs"], "all documents, all inline nesting, any block nesting and any leading layout",
 "Tests pin positions for hand-made snippets starting at column 0; offsets accumulate through nested lexers (inline arguments, blocks, includes), which only many shapes reveal.",
 ["mau/text_buffer.py", "mau/token.py", "mau/lexers/base_lexer.py", LEX, TXT, "mau/parsers/arguments_parser.py"],
 [("_create_token_and_skip and TextBuffer.position", "mau/lexers/base_lexer.py"), ("Context.merge_contexts", "mau/text_buffer.py")],
 ["lexer.tokens", "_context of the data of every node"])

prop("C05", "Comments, extra blank lines and trailing spaces change nothing",
 """Adding or removing single-line comments anywhere, multi-line comments between constructs, additional blank lines next to blank lines or
 at the beginning or end of the text, and spaces on blank lines or at the end of text lines and inclusions does not change the rendered document apart from positions.
 The content of raw and source blocks, where those are ordinary text, is preserved.""",
 ["inputs"], "all documents and all sets of insertion points and comment texts",
 "Tests check comments in isolation; whether a comment splits a paragraph or a list, eats an attachment or swallows the next line depends on every possible neighbour.",
 [LEX, "mau/lexers/base_lexer.py", DOCP],
 [("comments produce no token", LEX), ("empty lines produce EOL tokens that no buffer consumes", DOCP)],
 [API])

prop("C06", "A document is exactly the sequence of its constructs, in order",
 """The content of a rendered document lists one node per construct of the source (paragraph, header, list, block, rule, include), with the
 right type, in source order, nothing lost, duplicated or merged; paragraphs keep their lines. For texts without references or variables, the content of two texts joined by a blank line is
 the content of the first followed by the content of the second.""",
 ["inputs"], "all well-formed documents over the whole construct vocabulary, all pairs of such documents",
 "Tests cover each construct alone or in a few pairs; the recognition order of the lexer makes every pair and every boundary a different case.",
 [LEX, DOCP, "mau/parsers/document_processors", "mau/parsers/base_parser.py"],
 [("ordered list of processing functions", LEX), ("processors consume their tokens and save one node", "mau/parsers/document_processors")],
 [API])

prop("C07", "Styles and verbatim nest as written and plain text is kept",
 """A line of text made of plain text, styles (underscore, star, caret, tilde) nested in any order, verbatim and escaped text is rendered as exactly the
 tree it was written as, and adjacent plain text forms a single node with the text as written (inner spaces included). Markers that are
 not closed on the line are plain text.""",
 ["inputs"], "all inline trees over styles, verbatim and escaped text of any depth and order, in every place that accepts text (paragraph, header, list item, label, macro argument)",
 "Tests list some ten nestings; the parser backtracks and regroups, so correctness depends on arbitrary combinations.",
 [TXT, "mau/lexers/text_lexer.py", "mau/nodes/inline.py"],
 [("recursive descent with backtracking", TXT), ("grouping of consecutive words", TXT)],
 [API])

prop("C08", "Escaped, verbatim and raw text reaches the output literally",
 """Any text written with its special characters escaped is rendered as exactly that text, and the content of verbatim, raw macros and of raw, source and included raw content
 is rendered character by character, with no interpretation of Mau syntax, comments, or variables. Line order, blank lines and inner whitespace of raw, source and included raw content are kept.""",
 ["inputs"], "all texts (any Unicode characters on a line, any lines), all escaping forms",
 "Tests escape one character at a time; literal fidelity must hold for every string, in particular sequences of special characters.",
 [TXT, "mau/parsers/preprocess_variables_parser.py", "mau/parsers/document_processors/block_engines/raw.py", "mau/parsers/document_processors/block_engines/source.py", INC],
 [("backslash, $...$, %...%, `...` handling in two passes", TXT + ", preprocess_variables_parser.py")],
 [API])

prop("C09", "A variable always stands for its latest value",
 """Replacing {name} with the value that the variable has at that point gives the same result as the original text, in every place where variables
 are supported (paragraphs, headers, lists, labels, arguments, conditions, includes and other definitions). The value is the latest definition that precedes in the document
 (also inside blocks), otherwise the one of the configuration; using a name that was never defined is an error, and escaped braces and verbatim are never replaced.""",
 ["inputs", "histories", "configurations"], "all sequences of definitions, redefinitions, flags and uses, at any nesting, with any string values",
 "Tests define one variable and use it once; shadowing, redefinition order, use inside nested blocks and interaction with markup are histories.",
 ["mau/parsers/preprocess_variables_parser.py", "mau/parsers/document_processors/variable_definition.py", "mau/environment/environment.py"],
 [("text is preprocessed before parsing", DOCP), ("definitions update the environment", "variable_definition.py")],
 [API])

prop("C10", "Arguments arrive as written: order, names, tags, subtype and alias",
 """The unnamed values, named values, tags and subtype written between brackets (or inline for includes and macros) are found on the node exactly as written,
 in order, whatever characters they contain once quoted or escaped. An alias adds exactly its configured arguments, names and subtype, without overriding what was written explicitly.""",
 ["inputs", "configurations"], "all argument lists (values with commas, quotes, equal signs, spaces, backslashes, parentheses, Unicode), all quoting styles, all alias configurations",
 "Tests use a dozen argument strings; quoting and escaping must round-trip for every value and every mixture.",
 ["mau/parsers/arguments_parser.py", "mau/lexers/arguments_lexer.py", "mau/nodes/node_arguments.py", "mau/parsers/document_processors/arguments.py"],
 [("quote-aware collection of values", "arguments_parser.py"), ("isolation of prefixed values", "arguments_parser.py")],
 [API])

prop("C11", "Arguments, labels and conditions attach to exactly the next node",
 """Arguments, labels and conditions written before a node are attached to that node only, whatever their order and whatever blank lines, comments or
 variable definitions are in between, and never to any other node. When arguments, a condition or a label with the same role are given more than once before the same node, the last one counts.""",
 ["inputs", "histories"], "all sequences of attachments and nodes of every kind, in any order, at any block depth",
 "Tests attach one thing to one node; leaking to a later node or being lost needs sequences of attachments and nodes, including nodes that are excluded or removed from the flow.",
 ["mau/parsers/buffers", "mau/parsers/document_processors"],
 [("push/pop buffers", "mau/parsers/buffers"), ("pop_labels/pop_or_default in every processor", "mau/parsers/document_processors")],
 [API])

prop("C12", "Conditions keep or drop exactly the guarded content",
 """A node preceded by a condition is in the output if and only if the condition (== or != on the current value of a variable) is true, and the rest of the document
 is rendered as if the condition, or the condition with its node, had not been written. An inline if macro is replaced by the case that the condition selects (nothing when it is missing), and
 ifeval by the value of the variable that the case names; a condition on an undefined variable is an error.""",
 ["inputs", "configurations"], "all documents with conditions on nodes of any kind and in any text, all variable values",
 "Tests check true and false once per node kind on one-node documents; that the rest of the document is untouched is a relation between whole documents.",
 ["mau/parsers/document_processors/control.py", "mau/parsers/buffers/control_buffer.py", "mau/parsers/condition_parser.py", TXT],
 [("control buffer popped by each processor", "mau/parsers/document_processors"), ("_parse_macro_control", TXT)],
 [API])

prop("C13", "The ToC lists every header once, in order, nested by level",
 """Every table of contents, in the document or produced for the whole document, lists all the headers of its scope exactly once in document order, and nests each one under the closest
 preceding header with a lower level. Every header has an internal id: the explicit one, or one computed only from its level and text, and the same id appears wherever the header is shown.""",
 ["inputs"], "all sequences of headers of any levels and texts, any number and position of tables of contents, any isolated or non-isolated blocks around them",
 "Tests use few level sequences; nesting is a recursive algorithm whose correctness concerns all sequences.",
 ["mau/parsers/managers/toc_manager.py", "mau/parsers/document_processors/header.py", DOCP],
 [("add_nodes_under_level", "toc_manager.py"), ("default_header_internal_id", "toc_manager.py")],
 [API, "parser.output.toc"])

prop("C14", "A link to a header always resolves to the header with that name",
 """Every link to a named header is rendered with the data of the one header of its scope that has that name, wherever it is (before or after the link, in blocks that are not isolated, in labels, lists or notes),
 with its own text or, without one, with the text of the header. A link to a name that does not exist and a name given twice in a scope are errors.""",
 ["inputs"], "all documents with any placement of named headers and links, across isolated and non-isolated blocks",
 "Tests link one header from one paragraph; resolution depends on the relative positions and nesting of links and headers.",
 ["mau/parsers/managers/header_links_manager.py", TXT, DOCP],
 [("HeaderLinksManager.process", "header_links_manager.py")],
 [API])

prop("C15", "Footnotes are numbered in order and mentions, list and bodies agree",
 """Footnote bodies never appear in the flow of the document; footnotes are numbered 1, 2, 3... in the order of their definition, every mention carries the number, id and content of the footnote it names, and every footnotes list
 contains each footnote of its scope once, in order. Mentioning an undefined footnote or defining one twice is an error.""",
 ["inputs"], "all documents with any number of bodies, mentions (before, after, repeated, in any text), lists, in isolated and non-isolated blocks",
 "Tests use one or two footnotes; numbering, repeated mentions, forward references and merging of scopes are combinatorial.",
 ["mau/parsers/managers/footnotes_manager.py", "mau/parsers/document_processors/block.py", INC],
 [("FootnotesManager.process/update", "footnotes_manager.py")],
 [API])

prop("C16", "Block groups collect each block at its position, outside of the flow",
 """A block with a group and a position does not appear in the flow; each inclusion of a group shows exactly the blocks assigned to that group in the same scope, each at its position with its full content, arguments and labels, in the order in which they are written.
 Assigning the same position of a group twice or including a group without blocks is an error.""",
 ["inputs"], "all documents with any number of groups, positions and inclusions, before or after the blocks, in nested blocks",
 "Tests use one group with two positions; cross-talk between groups and scopes needs several.",
 ["mau/parsers/managers/blockgroup_manager.py", "mau/parsers/document_processors/block.py", INC],
 [("BlockGroupManager", "blockgroup_manager.py")],
 [API])

prop("C17", "Lists nest by marker depth and ordered lists count correctly",
 """The items of a list appear in order, each with its level, text and nesting as given by the length of its marker, and each (sub)list is ordered or unordered as the marker of its first item says.
 An ordered list starts from its start argument, or with start=auto from the number after the last item of the previous ordered list of the same scope; without the argument lists start from 1.""",
 ["inputs", "histories"], "all sequences of items with any levels (jumps included) and markers, all sequences of lists with any start",
 "Tests use a handful of level sequences; the recursive grouping has to be right for every one, and numbering depends on the history of previous lists.",
 ["mau/parsers/document_processors/list.py", LEX],
 [("_process_list_nodes recursion", "list.py"), ("latest_ordered_list_index", "list.py")],
 [API])

prop("C18", "Blocks contain exactly what their text means on its own",
 """The content of a block is what its text, processed alone with the variables defined so far, would give; blocks nest to any depth with any delimiter (four identical characters), and classes and arguments stay on their block.
 Headers, footnotes, links to headers and tables of contents inside a block are separate from the outside unless the block has isolate=false, in which case they behave as if the content were not in a block.""",
 ["inputs"], "all block contents, delimiters and nesting depths, isolated or not",
 "Tests nest once or twice with chosen delimiters; equivalence with standalone processing is a relation over all contents.",
 ["mau/parsers/document_processors/block.py", "mau/parsers/document_processors/block_engines/default.py", LEX, DOCP],
 [("recursive lex_and_parse of the content", "block_engines/default.py"), ("managers updated when isolate=false", "block_engines/default.py")],
 [API])

prop("C19", "Source blocks keep code, markers and highlights apart, line by line",
 """A source block has one line per line of its content, numbered from 1, whose code is the written line without its final marker; lines without a marker are kept unchanged. Markers and highlight styles are attached to exactly the lines that have them, with
 the configured delimiter, highlight prefix, default style and style aliases.""",
 ["inputs", "configurations"], "all code lines (containing the delimiter anywhere), delimiters and prefixes of any length, alias configurations",
 "Tests use ':1:' and ':@:' on simple lines; splitting must be right for code that contains delimiters.",
 ["mau/parsers/document_processors/block_engines/source.py"],
 [("parse_source_engine", "source.py")],
 [API])

prop("C20", "Included files render as if processed on their own with the given variables",
 """The content of an included Mau file is what processing that file alone gives with the variables of the including document (or none with pass_environment=false) plus the call: arguments, and variables set in the file never
 change the including document. Any inclusion that leads back to a file being included is an error, every other inclusion works, and the recorded inclusion calls are exactly those made, with caller, callee and call arguments.""",
 ["inputs", "configurations"], "all sets of files and inclusion graphs (chains, diamonds, cycles, through blocks), all variables and call arguments",
 "Tests include one file; scoping and loop detection are properties of whole graphs.",
 [INC, DOCP, "mau/environment/environment.py"],
 [("forbidden_includes", INC), ("clone of the environment", INC), ("IncludeCall", INC)],
 [API, "parser.output.include_calls"])

prop("C21", "Macros carry the target, text and arguments they were written with",
 """Each inline macro (link, mailto, image, class, unicode, raw, header, footnote and any custom name) is rendered in place with exactly the targets, values, classes and arguments written in it, positional or named, quoted or escaped,
 and its text is rendered as the same text would be on its own line. A built-in macro without its mandatory value is an error.""",
 ["inputs"], "all macros with any argument values and any (styled, nested) text, surrounded by any text",
 "Tests call each macro with a few arguments; quoting and nested markup must work for every text.",
 [TXT, "mau/parsers/arguments_parser.py", "mau/nodes/macro.py", VIS],
 [("_parse_macro and _collect_macro_args", TXT)],
 [API])

prop("C22", "The Jinja visitor uses the most specific matching template",
 """For every set of templates and every node, the template used is one that matches the node (type, custom field, subtype, prefix, parent type, parent field, parent subtype, tags); configured prefixes are tried in order before templates without prefix, and among matching ones it is
 the most specific in the documented order (custom fields, subtype, prefix, parent type, parent fields, parent subtype, number of tags). When nothing matches, an error is raised.""",
 ["inputs", "configurations"], "all sets of template names, all nodes with any type, subtype, tags, parents, and all prefix lists",
 "Tests check pairs of templates; precedence is a total order over arbitrary sets.",
 [JIN],
 [("Template.from_name/match/specificity", JIN), ("_find_matching_template", JIN)],
 [API])

prop("C23", "Jinja output is the composition of the templates over the node tree",
 """The output of a Jinja visitor is each node's template rendered with the node's data, where children are already rendered and joined with the documented separators, exactly once and in order, and the configuration is available to templates. Templates from the configuration override
 those from directories, which override those from providers, which override the visitor's defaults; later directories and providers override earlier ones.""",
 ["inputs", "configurations"], "all documents and all template sets distributed over all sources",
 "Tests render one node with one template; composition and source precedence need whole documents and several sources.",
 [JIN, VIS],
 [("visit/visitlist/_render", JIN), ("load_templates_from_*", JIN)],
 [API])

prop("C24", "YAML output loads back to the data of the document",
 """Loading the output of the YAML visitor with a standard safe YAML loader gives exactly the data produced by the base visitor for the same document, with no aliases or anchors, whatever characters the document contains.""",
 ["inputs"], "all documents and all Unicode text that may be in a text file",
 "Tests dump one trivial document; quoting of arbitrary text and shared data (tables of contents, footnotes, groups) is not sampled.",
 ["mau/visitors/yaml_visitor.py", VIS],
 [("yaml.dump with a dumper without aliases", "yaml_visitor.py")],
 ["Mau.process(YamlVisitor) against Mau.process(BaseVisitor)"])

prop("C25", "An environment behaves as a nested dictionary with dotted names",
 """After any sequence of operations an environment gives, for every dotted name, the latest value stored through a nested dictionary, another environment, a namespace or an assignment; updates without overwriting never change existing values. Names with further levels return the corresponding sub-environment,
 the nested and the flat view agree, and using or changing a clone, a view or the source data never changes the environment.""",
 ["histories"], "all sequences of from_dict, from_environment, update, dupdate, assignment, get, item access, asdict and asflatdict with any names and values",
 "Tests do one operation each; the laws concern sequences and aliasing between objects.",
 ["mau/environment/environment.py", "mau/environment/helpers.py"],
 [("flat dictionary of dotted names", "environment.py"), ("flatten/nest", "helpers.py")],
 ["Environment public methods"])

prop("C26", "The command line renders exactly what the library renders, safely",
 """Running the command line on a file writes, to the given output file or standard output or to the input name with the extension of the visitor, exactly what the library produces for that text with the same configuration, followed by a newline. The input file is never modified unless it is explicitly the output;
 on errors the exit code is not zero, the error is logged, and no output file is written or altered.""",
 ["inputs", "configurations"], "all input texts and file names, all combinations of options",
 "There are no command line tests at all.",
 ["mau/cli.py", "mau/__init__.py"],
 [("main", "mau/cli.py"), ("write_output", "mau/cli.py")],
 ["processes running the mau command line in a scratch directory"])

prop("C27", "Environment files and variables are loaded under their exact names",
 """Each key=value given as environment variable is available under the namespace and key with exactly that value (everything after the first equal sign), and each environment file is available under the namespace and its key (or the name of the file) with exactly the data of the YAML file. Entries given
 later win, existing values elsewhere are kept, and an unreadable or invalid file is a configuration error that leaves the environment unchanged.""",
 ["inputs", "configurations"], "all keys, values, namespaces, YAML data and sequences of entries",
 "Tests load one or two fixed entries.",
 ["mau/__init__.py"],
 [("load_environment_files / load_environment_variables", "mau/__init__.py")],
 ["load_environment_files / load_environment_variables", "Environment"])

prop("C28", "Nodes know their container, and copies are complete and independent",
 """In a parsed document the parent of every node is the node it is shown in, so that parent-based templates see the right parent (for the text of a line of a paragraph, the paragraph; for the items of a list and their text, also in nested lists, the main list; for the content of an included file, the document of that file). Nodes written as the text argument of a macro, markers of source lines and footnotes have either that parent or none. Copies of a node, such as the headers shown in tables of contents, render the same data as the original, parents apart, and changing a copy in any way never changes the original.""",
 ["inputs"], "all documents, all nodes and all modifications of copies",
 "Tests copy hand-built nodes one class at a time and remove parents before comparing.",
 ["mau/nodes", DOCP, "mau/parsers/managers"],
 [("parent assignments in processors", "mau/parsers/document_processors"), ("Node.deepcopy", "mau/nodes")],
 ["parent data of every rendered node", "Node.deepcopy"])

prop("C29", "Debug tags report nodes and change nothing else",
 """Every shown node that has the internal tag `mau:debug` is reported to the message handler with a debug message that carries its type, its position (lines counted from 1) and the data it is rendered with, at least once and at most as many times as it is shown, with every visitor; nodes without the tag, or not shown, are never reported.
 The tag never changes the result: the same text with another internal tag renders to the same output. With the Jinja visitor the message names the matching templates, the one used first. The log handler writes the type of each reported node at its configured level.""",
 ["inputs"], "all documents, with the tag on any nodes, in any container or included file, rendered with any visitor",
 "The debug code is excluded from coverage and has no tests.",
 [VIS, JIN, "mau/message.py", "mau/parsers/arguments_parser.py"],
 [("visit() reports nodes with the tag", VIS), ("create_visitor_debug_message", VIS), ("LogMessageHandler.process_visitor_debug", "mau/message.py")],
 ["message handler calls", "log records", API])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
