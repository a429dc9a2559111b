#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the readable source of that file)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe,
        },
    })


DP = "mau/parsers/document_processors/"
MG = "mau/parsers/managers/"

p("C01", "Every text either renders or fails with one Mau error",
  "For every input text and environment of strings, processing terminates and either produces an output or raises Mau's own exception; no other exception ever escapes. On failure exactly one error message reaches the message handler, it belongs to the stage that failed (lexing or parsing), and the message carries the position of the text at fault.",
  ["inputs"], "all texts (valid or not) over Mau's syntax, all string environments",
  "The tests check a hand-picked list of wrong texts; the guarantee is over all combinations of constructs, and sixteen combinations crashed with a Python exception before the fix commits.",
  ["mau/__init__.py", "mau/lexers/base_lexer.py", "mau/parsers/base_parser.py", MG + "tokens_manager.py"],
  [("run_lexer/run_parser/run_visitor wrap MauException and notify the handler once", "mau/__init__.py"),
   ("TokensManager backtracks only on TokenError", MG + "tokens_manager.py"),
   ("loop detection and 'Cannot parse token'", "mau/parsers/base_parser.py")],
  ["Mau.process outcome", "message handler calls"])

p("C02", "Document lexing classifies every line by one fixed grammar",
  "Every line of a document is turned into the tokens of exactly one construct (empty line, comment, rule, block, control, include, variable, arguments, label, list item, header, text), chosen by the documented line syntax and precedence; blocks and multiline comments extend to their closing delimiter and an unclosed one is an error. No text is lost or invented: the token values of a line, put back with the separators of the syntax, are the line.",
  ["inputs"], "all sequences of lines",
  "The lexer tests give one or two lines per construct; precedence between constructs, delimiters inside blocks and comments, and lines at the end of the file interact and are not enumerated.",
  ["mau/lexers/document_lexer.py", "mau/lexers/base_lexer.py"],
  [("ordered list of regular expressions", "mau/lexers/document_lexer.py:_process_functions"),
   ("eof, empty line and trailing spaces first", "mau/lexers/base_lexer.py:_process")],
  ["DocumentLexer.tokens"])

p("C03", "Tokens and nodes carry the true source position",
  "Every token produced from a document spans exactly the line and columns of the source where its text is found, tokens are in source order and never overlap. Every node of the output spans the source text of the construct it comes from (also inside blocks, lists and macro arguments), and errors point to the construct at fault with 1-based lines.",
  ["inputs"], "all documents, any nesting of blocks and macros",
  "Tests compare positions of single constructs, mostly on the first lines; offsets are composed by nested lexers through blocks, lists, macros and arguments, so the interesting cases are combinations.",
  ["mau/text_buffer.py", "mau/lexers/base_lexer.py", "mau/token.py", "mau/parsers/text_parser.py"],
  [("TextBuffer.position / start_line, start_column", "mau/text_buffer.py"),
   ("Context.merge_contexts", "mau/text_buffer.py")],
  ["token contexts", "_context of visited nodes"])

p("C04", "The output keeps the structure and the order of the source",
  "The output contains one node for each construct of the source that renders, in source order and nested as in the source, and nothing else: consecutive text lines form one paragraph with one line each, an empty line or a different construct ends it, and a block contains exactly the constructs written between its delimiters. Comments and definitions leave no node.",
  ["inputs"], "all sequences and nestings of constructs",
  "Tests exercise a construct at a time; sequences of different constructs without empty lines between them are the untested majority.",
  ["mau/parsers/document_parser.py", DP + "paragraph.py", DP + "block.py"],
  [("ordered processors", "mau/parsers/document_parser.py:_process_functions"), ("recursive parse of block content", DP + "block_engines/default.py")],
  ["document node content"])

p("C05", "Arguments, labels and controls bind to the next node only, once",
  "Arguments, labels and a control statement written before a construct are attached to that construct, the next one that produces a node, and to no other, even when empty lines, variable definitions or comments stand between them. The latest arguments and the latest control win, labels accumulate by role with the latest text for each role, and a block's inner constructs never receive what was written before the block.",
  ["inputs", "histories"], "all sequences of attachments, constructs, and what may stand between them",
  "Tests place one attachment immediately before one node; the guarantee is about every later node of the document as well.",
  ["mau/parsers/buffers/arguments_buffer.py", "mau/parsers/buffers/label_buffer.py", "mau/parsers/buffers/control_buffer.py", "mau/parsers/document_parser.py"],
  [("buffers emptied when popped", "mau/parsers/buffers/"), ("pop_labels / pop_or_default / exclude_node", "mau/parsers/document_parser.py")],
  ["args, kwargs, tags, subtype, labels of every node"],
  [("arguments/label/control buffers", "what waits for the next node", "mau/parsers/document_parser.py")])

p("C06", "A node excluded by a false control leaves no trace",
  "When the condition of a control is false the next construct, together with its arguments and labels, has no effect on the output: the result is the one of the same document without the construct. In particular no header reaches a table of contents, no footnote or group block is stored, no file is read, no variable is set, no list numbering advances; a true condition renders the construct exactly as if the control were not there.",
  ["inputs", "configurations"], "all constructs, any position in the document, any values of the variables",
  "A relation between two documents, for every construct and context; the tests check that single excluded nodes are not in the output.",
  ["mau/parsers/buffers/control_buffer.py", DP, "mau/parsers/document_parser.py"],
  [("exclude_node before any side effect", "mau/parsers/document_parser.py"), ("Control.process", "mau/parsers/buffers/control_buffer.py")],
  ["whole output of the pair of documents"])

p("C07", "Variables are replaced by their latest value, once, and only where allowed",
  "A name between curly braces in text, arguments, conditions, labels, headers, list items and variable definitions is replaced by the value the variable has at that point of the document, as text and without expanding the value again; an undefined name is an error. Text between backticks, escaped braces and raw or source content are never replaced, `+name` and `-name` mean true and false, and a definition affects only what follows.",
  ["inputs", "histories"], "all sequences of definitions and uses, values containing Mau syntax",
  "Tests use one or two variables with plain values; redefinitions, values containing braces, escapes or backticks, and uses in every construct multiply.",
  ["mau/parsers/preprocess_variables_parser.py", "mau/lexers/preprocess_variables_lexer.py", DP + "variable_definition.py"],
  [("single pass replacement", "mau/parsers/preprocess_variables_parser.py"), ("environment update", DP + "variable_definition.py")],
  ["text of the output"],
  [("environment", "variables defined so far", "mau/environment/environment.py")])

p("C08", "Inline markup never loses, repeats or reorders text",
  "The visible text of a line is the source text without the markers that matched: style pairs, verbatim and escape pairs nest as written, unmatched markers are kept as plain text, and a backslash removes the meaning of the next character. Adjacent plain text is one node, and every character of the text appears exactly once and in order.",
  ["inputs"], "all sequences of markers, escapes, words and spaces in a line",
  "The parser backtracks over a recursive grammar; tests sample some dozens of marker sequences, the interleavings of unmatched markers are not enumerated.",
  ["mau/parsers/text_parser.py", "mau/lexers/text_lexer.py", MG + "tokens_manager.py"],
  [("ordered attempts with backtracking", "mau/parsers/text_parser.py:_parse_text"), ("grouping of words", "mau/parsers/text_parser.py:_parse_sentence"), ("collect", MG + "tokens_manager.py")],
  ["inline nodes of paragraphs, headers and list items"])

p("C09", "Macros mean what the syntax says, conditionals pick one branch",
  "A well formed macro produces the node its name stands for, with the arguments in their documented places and Mau syntax parsed in its text; anything not well formed is plain text, and a missing mandatory argument is an error. A conditional macro yields exactly the branch selected by the value of the variable (the text itself for `if`, the named variable for `ifeval`), the other branch has no effect and the surrounding sentence continues.",
  ["inputs", "configurations"], "all macro names, argument lists (named, unnamed, quoted, escaped), nesting of macros and styles, values of the variables",
  "Each macro is tested with its canonical arguments; quoting, escaping, order of named arguments and nesting multiply.",
  ["mau/parsers/text_parser.py", "mau/parsers/arguments_parser.py", "mau/parsers/condition_parser.py"],
  [("_parse_macro and one function for each macro", "mau/parsers/text_parser.py"), ("_collect_macro_args", "mau/parsers/text_parser.py"), ("_parse_macro_control", "mau/parsers/text_parser.py")],
  ["macro nodes of the output"])

p("C10", "Arguments are split, named and aliased by one set of rules",
  "A list of arguments is split at commas outside quotes, quotes and escapes protect commas and quotes, and each argument ends up in exactly one place (positional, named, tag, internal tag, subtype) in its order of appearance. Positional arguments fill, in order, the documented names not already given by name; an alias adds its arguments and subtype without overwriting what the author wrote; unnamed after named, two subtypes and unknown aliases are errors.",
  ["inputs", "configurations"], "all argument strings, all aliases",
  "Tests sample strings with one feature each; the rules interact (quotes with named values, escapes, tags, alias names against explicit names).",
  ["mau/parsers/arguments_parser.py", "mau/lexers/arguments_lexer.py", "mau/nodes/node_arguments.py"],
  [("ArgumentsParser", "mau/parsers/arguments_parser.py"), ("set_names", "mau/nodes/node_arguments.py")],
  ["args, kwargs, tags, subtype of nodes", "ArgumentsParser.arguments"])

p("C11", "Lists keep items, nesting and numbering",
  "Every list item of the source is in the output exactly once and in order, at the nesting given by the number of its markers, and each (sub)list is ordered or not according to its first marker. A list ends at the first empty line or when an item goes back before the level of its first one, and an ordered list with automatic start continues from the number after the last item of the latest ordered list of the document.",
  ["inputs", "histories"], "all sequences of item levels and kinds, any number of lists",
  "Sequences of levels are unbounded (jumps of more than one level, going back, mixed kinds) and the numbering is a property of the history of all previous lists.",
  [DP + "list.py"],
  [("_process_list_nodes", DP + "list.py"), ("latest_ordered_list_index", "mau/parsers/document_parser.py")],
  ["list nodes: ordered, start, main_node, level, content"],
  [("latest_ordered_list_index", "number that follows the last item of the latest ordered list", "mau/parsers/document_parser.py")])

p("C12", "The table of contents lists every header once, in order, nested by level",
  "Every table of contents contains each header of its document exactly once, in document order, in the plain list with the same level, text, name and id; in the nested list each header is a child of the nearest previous header with a smaller level. Headers keep their explicit id or receive one that depends only on level and text, and a table of contents is complete wherever it stands in the document.",
  ["inputs", "histories"], "all sequences of header levels, all positions of the table of contents",
  "Level sequences are unbounded and irregular ones (jumps, starting deep) are where hierarchies break; tests use a handful.",
  [MG + "toc_manager.py", DP + "header.py", DP + "include.py"],
  [("add_nodes_under_level", MG + "toc_manager.py"), ("TocManager.process", MG + "toc_manager.py")],
  ["toc nodes", "headers"],
  [("headers, toc_nodes", "headers and tables collected so far", MG + "toc_manager.py")])

p("C13", "Every header link resolves to the one header with that name",
  "Every link to a header, wherever it stands in the document (text, styles, lists, labels, other macros) and whether before or after the header, is connected to the only header with that name, and has the given text or otherwise the header's own. A link to a name no header has and two headers with the same name are errors.",
  ["inputs", "histories"], "all placements of links and named headers",
  "Links are collected by recursive parsers and resolved at the end; tests place the link in a paragraph.",
  [MG + "header_links_manager.py", "mau/parsers/text_parser.py", DP + "header.py"],
  [("HeaderLinksManager.process", MG + "header_links_manager.py"), ("_inherit_macros", "mau/parsers/text_parser.py")],
  ["macro-header nodes"],
  [("macros, headers", "links and names collected so far", MG + "header_links_manager.py")])

p("C14", "Footnotes are numbered in order and every mention is linked",
  "Footnotes are numbered from 1 in the order in which they are defined, every mention in the text outside footnotes is connected to the footnote with its name and shows that number and content, and every list of footnotes contains all footnotes of the document in order. The definition itself is not rendered in place; mentioning an undefined footnote and defining one twice are errors, while an unused footnote is listed all the same.",
  ["inputs", "histories"], "all placements of definitions, mentions and lists",
  "Definitions, mentions and lists come in any order and are connected at the end; tests use one or two of each.",
  [MG + "footnotes_manager.py", DP + "block.py", "mau/parsers/text_parser.py"],
  [("FootnotesManager.process", MG + "footnotes_manager.py")],
  ["macro-footnote, footnote and footnotes nodes"],
  [("bodies, footnote_macros, footnotes_list_nodes", "collected so far", MG + "footnotes_manager.py")])

p("C15", "Block groups contain exactly their blocks, one for each position",
  "A block with both group and position is not rendered in place: it appears in every rendering of its group, wherever that stands in the document, under its position and in the order of definition. Two blocks in the same position and rendering a group that does not exist are errors, and a block with only one of the two arguments is a normal block.",
  ["inputs", "histories"], "all placements of grouped blocks and group renderings",
  "Needs several blocks, groups and renderings in any order.",
  [MG + "blockgroup_manager.py", DP + "block.py", DP + "include.py"],
  [("BlockGroupManager", MG + "blockgroup_manager.py")],
  ["blockgroup nodes"],
  [("items, groups", "blocks and renderings collected so far", MG + "blockgroup_manager.py")])

p("C16", "Includes terminate, and see exactly the variables they are given",
  "An included Mau file renders as the document it contains; any chain of inclusions that would come back to a file being processed, at any depth and also through blocks, is reported as an error, while including a file many times without a cycle always works. The included file sees the variables defined so far (none if told not to) plus the ones passed in the call, and never changes the variables of the including document; missing or unreadable files are errors.",
  ["inputs", "programs"], "all graphs of files, all definitions and call arguments",
  "A property of graphs of files and of histories of definitions; the tests include one file, at most two levels.",
  [DP + "include.py", DP + "block_engines/default.py"],
  [("forbidden_includes", DP + "include.py"), ("Environment.from_environment and call arguments", DP + "include.py")],
  ["include-mau nodes", "errors"],
  [("forbidden_includes", "files being processed", "mau/parsers/document_parser.py")])

p("C17", "Blocks are isolated unless told otherwise, and then fully merged",
  "Headers, header names, footnotes and mentions in a block belong to the block: they never reach the outer table of contents, footnotes or links, and names can be reused. With isolate=false they are treated exactly as if they were written in the outer document at the place of the block, whatever the depth of nesting.",
  ["inputs"], "all nestings of isolated and non isolated blocks with headers, links, footnotes and tables of contents",
  "Nesting of the two kinds of blocks with definitions inside and uses outside, or the reverse, is not enumerated by tests.",
  [DP + "block_engines/default.py", "mau/parsers/document_parser.py", MG],
  [("managers of the inner parser merged or dropped", DP + "block_engines/default.py")],
  ["toc, footnotes and links inside and outside blocks"])

p("C18", "Raw and source blocks keep the code verbatim, line by line",
  "A raw or source block, and a raw include, contain one line for each source line with exactly its text: no variable, markup, comment or construct is interpreted. In source blocks only a marker between two delimiters at the end of a line is removed from it and becomes a callout or a highlight (by the configured delimiter, prefix, default style and style aliases), lines are numbered from 1, and language defaults to text.",
  ["inputs", "configurations"], "all contents, all delimiter, prefix and style settings",
  "Content is arbitrary text, and the marker syntax (delimiters inside the code, empty markers, longer delimiters) interacts with it.",
  [DP + "block_engines/source.py", DP + "block_engines/raw.py", DP + "include.py"],
  [("parse_source_engine", DP + "block_engines/source.py"), ("parse_raw_engine", DP + "block_engines/raw.py")],
  ["source, source-line, raw and raw-line nodes"])

p("C19", "The environment is a faithful nested map",
  "A value stored in the environment under a dotted name, a nested dictionary or a namespace is read back by its full dotted name, and reading a prefix gives exactly the names stored under it, with the prefix removed. Later writes replace earlier ones (or never do, when told not to overwrite), other names are untouched, nesting and flattening are inverse to each other, and a cloned environment is independent from the original.",
  ["histories", "inputs"], "all sequences of writes, updates, clones and reads",
  "An algebraic law over histories of operations; tests do one or two operations on fixed dictionaries.",
  ["mau/environment/environment.py", "mau/environment/helpers.py"],
  [("flatten_nested_dict / nest_flattened_dict", "mau/environment/helpers.py"), ("Environment.get", "mau/environment/environment.py")],
  ["Environment API"],
  [("_variables", "flat dictionary", "mau/environment/environment.py")])

p("C20", "The most specific matching template always renders the node",
  "For every node and every set of templates, the template used is one whose every claim (type, subtype, tags, own and parent fields, parent type and subtype, prefix) holds for the node; requested prefixes are tried first in their order and, for the same prefix, no other matching template makes more specific claims. The result does not depend on the order of the claims in template names, and a node no template matches is an error.",
  ["configurations", "inputs"], "all sets of templates, all nodes and parents, all prefix lists",
  "Sets of templates are combinations of seven kinds of claims; tests check pairs.",
  ["mau/visitors/jinja_visitor.py"],
  [("Template.match / specificity / from_name", "mau/visitors/jinja_visitor.py"), ("_find_matching_template", "mau/visitors/jinja_visitor.py")],
  ["rendered text"])

p("C21", "Visiting is faithful, complete and does not modify the document",
  "Visiting the result of a document reports every node with its type, arguments, labels, own fields and children, each child visited exactly once and in order; visiting again, or with another visitor, gives the same data and leaves the document unchanged. The YAML output writes every value where it belongs, without references to other places, and loads back to exactly the data of the plain visitor. When rendering, the children of a node give one text each, in order, joined by the separator of that kind of node.",
  ["inputs", "histories"], "all documents, any sequence of visits",
  "Tests visit nodes built by hand one at a time; whole documents, repeated visits and round trips are not covered.",
  ["mau/visitors/base_visitor.py", "mau/visitors/yaml_visitor.py", "mau/visitors/jinja_visitor.py", "mau/nodes/"],
  [("BaseVisitor._visit_*", "mau/visitors/base_visitor.py"), ("yaml dump without aliases", "mau/visitors/yaml_visitor.py")],
  ["visitor output"])

p("C22", "Runs are deterministic and independent from each other",
  "The output for a text and an environment depends on nothing else: processing other documents before it in the same process (including failed ones), processing it again, or running with another hash seed or locale gives the same result.",
  ["histories", "inputs"], "all sequences of documents processed in one process",
  "State leaking between runs (shared defaults, class attributes, caches) shows only in sequences of runs, which tests never compose.",
  ["mau/parsers/document_parser.py", "mau/nodes/node_arguments.py", "mau/parsers/arguments_parser.py", MG],
  [("fresh parser, managers and buffers for each run", "mau/parsers/document_parser.py")],
  ["visitor output of every run of a sequence"])

p("C23", "The command line writes the result where told and reports failure",
  "A successful run writes exactly the rendered text followed by a newline to the requested file, to standard output for `-`, or by default next to the input under its name with the format's extension, never over the input, and exits with 0. Any error in the document, or a missing output format, exits with 1 and leaves output files untouched; stopping after the lexer exits with 0 and writes no file.",
  ["inputs", "configurations"], "all combinations of options, inputs and pre-existing files",
  "The command line has no tests of its own.",
  ["mau/cli.py"],
  [("main", "mau/cli.py"), ("write_output", "mau/cli.py")],
  ["exit status, files and standard output"])

p("C24", "Configuration, files and variables from outside reach the document",
  "Values of the configuration file are visible under the base namespace, environment files under their key (or file name) and environment variables under their name in their own namespaces or the given ones, with nested values reachable by dotted names and later sources replacing earlier ones. Nothing else is added or lost, a variable's value may contain any character, and a file that cannot be loaded is a configuration error that changes nothing.",
  ["configurations", "histories"], "all sequences of files and variables, keys and namespaces",
  "Tests load one file or variable; combinations of keys, namespaces, collisions and values are not covered.",
  ["mau/__init__.py", "mau/cli.py", "mau/environment/environment.py"],
  [("load_environment_files / load_environment_variables", "mau/__init__.py"), ("Environment.dupdate", "mau/environment/environment.py")],
  ["Environment content", "rendered documents"])

p("C25", "Templates come from every source, and the latest source wins",
  "The templates of a visitor are those of its defaults, of the requested template providers, of the files in the configured folders and of the configuration, in this order: for each name the latest source that has it decides the text, and no template is lost, added or changed. Folders and dots in names are the same, what has not the extension of the format is ignored (and not even read), templates can use each other by their names without extension, a missing provider is an error, and creating a visitor changes neither its defaults nor other visitors.",
  ["configurations", "histories"], "all sets of templates in any number of sources, all orders of providers and folders, any sequence of visitors",
  "The tests load one source at a time, and reading files and plugins is excluded from coverage; precedence is a matter of combinations.",
  ["mau/visitors/jinja_visitor.py", "mau/environment/environment.py"],
  [("JinjaVisitor.__init__", "mau/visitors/jinja_visitor.py"), ("load_templates_from_providers", "mau/visitors/jinja_visitor.py"),
   ("_load_templates_from_path", "mau/visitors/jinja_visitor.py")],
  ["rendered text"])

p("C26", "Messages tell the truth about the document and change nothing",
  "The tokens printed on request are those of the document, each with type, text and the place where it stands, lines counted from 1. An error is reported once, with its stage and that place; a document that cannot be rendered names a node that has no template, or whose template fails, and where it is. Each visit of a node tagged `#mau:debug`, and no other, sends one message with its kind, place, data and (when rendering) the templates that match. Messages, and the options that ask for them, never change the result, the file that is written or the exit status.",
  ["inputs", "configurations"], "all documents, tagged nodes in any position, all options",
  "Debugging and printing are excluded from the coverage of the tests; one tagged node in one place says nothing about nodes reached through copies, footnotes, tables of contents and templates.",
  ["mau/message.py", "mau/visitors/base_visitor.py", "mau/visitors/jinja_visitor.py", "mau/cli.py", "mau/lexers/base_lexer.py"],
  [("LogMessageHandler", "mau/message.py"), ("BaseVisitor.visit", "mau/visitors/base_visitor.py"), ("print_tokens", "mau/lexers/base_lexer.py")],
  ["messages received by a handler", "log", "standard output", "files written"])

p("C27", "What a program asks about a processed document is the truth",
  "Besides the document the parser offers its table of contents (every header that belongs to the document, plain and nested, and nothing when the document is empty) and the inclusions of Mau files that took place, in the order of the text, blocks and included files counted: each with includer, included file, variables passed and place. Configured functions give the ids of the headers without an id and of the footnotes, also in blocks and in the files that receive the environment; a configured class holds the document; a copy of the document is equal to it and independent. None of this changes anything else.",
  ["inputs", "configurations"], "all documents with headers, footnotes and inclusions at any depth, with and without configured functions",
  "The tests check one inclusion or one header at a time, and functions in isolation; nesting of blocks and files, exclusion and inheritance of the configuration combine in unlimited ways.",
  ["mau/parsers/document_parser.py", "mau/parsers/document_processors/include.py", "mau/parsers/managers/toc_manager.py",
   "mau/parsers/managers/footnotes_manager.py", "mau/nodes/"],
  [("DocumentParser.finalise", "mau/parsers/document_parser.py"), ("IncludeCall", "mau/parsers/document_processors/include.py"),
   ("create_internal_ids", "mau/parsers/managers/toc_manager.py"), ("deepcopy", "mau/nodes/node.py")],
  ["parser.output", "visitor output"])

p("C28", "The parent of every node is what holds it, also in copies",
  "The parent of each node of a processed document, which templates may refer to, is the nearest node around it that holds it: the block, footnote, header, label, style or macro for what is written in them, the paragraph for the text of its lines, the list for everything in it at any level, the table, group or code block for its entries, blocks and lines, and the document of an included file for the nodes of the file. It is the same in the copies shown in footnotes, links and tables of contents as where the node was written; a footnote and a document have no parent, and a header mentioned elsewhere has the parent it has where it stands.",
  ["inputs"], "all nestings of constructs, in place and in copies",
  "The tests compare nodes without their parents, or check the parents of one construct at a time in plain documents; constructs nest without limit and footnotes, links and tables contain copies.",
  ["mau/nodes/", "mau/parsers/text_parser.py", "mau/parsers/document_parser.py", "mau/parsers/document_processors/", "mau/parsers/managers/"],
  [("deepcopy", "mau/nodes/*.py"), ("parent_node", "mau/parsers/base_parser.py"), ("_adopt_content", "mau/parsers/text_parser.py"), ("parent", "mau/visitors/base_visitor.py:visit")],
  ["visitor data: parent", "templates with pt_ and pts_"])

p("C29", "Templates see the configuration and the last values of the variables",
  "While a document is rendered every template sees, as `config`, the same nested dictionaries: all the values of the environment, those of the configuration and those given from outside, with the values the document left in them. A variable has the value of its last definition, in blocks of every kind too; what an included file defines for itself, or receives for itself, and what is not a definition never reaches the templates, and no other value is lost or changed.",
  ["inputs", "configurations"], "all sequences of definitions at any place of a document",
  "No test renders a template that reads the configuration after a document has changed it; definitions can be anywhere in the text.",
  ["mau/visitors/jinja_visitor.py", "mau/__init__.py", "mau/parsers/document_processors/variable_definition.py", "mau/environment/environment.py", "mau/parsers/document_processors/include.py"],
  [("_render", "mau/visitors/jinja_visitor.py:_render"), ("asdict", "mau/environment/environment.py"), ("run_visitor", "mau/__init__.py")],
  ["rendered text: config"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
