# NOTES[id] = (technique, level note)
_X = "Exploration: random generated inputs, nothing is claimed outside the generators (DESIGN.md); "
NOTES = {
 "C01": ("fuzzing (grammar-based soup, mutation of valid documents, Unicode, deep nesting) with a totality oracle",
         _X + "non-termination is a CPU bound of 20 s per case; recursion limit is Python's default."),
 "C02": ("property-based fault injection into generated valid documents; oracle: the injected place",
         _X + "one fault per document; the kinds of faults are those listed in the check."),
 "C03": ("stateful/metamorphic property-based testing: histories of interleaved processing against isolated runs, plus differential runs under other hash seeds",
         _X + "interleavings are of whole API steps in one thread; trusts the comparison of rendered data."),
 "C04": ("property-based testing: invariants of positions against the source text, generated places, metamorphic moves",
         _X + "columns inside of lines with variables, escaped braces or escaped arguments are not judged (the statement says so)."),
 "C05": ("metamorphic property-based testing: insertion and removal of inert lines and spaces", _X + "inert edits are generated by a model that knows where text is ordinary."),
 "C06": ("model-based property testing (reference model of documents) and metamorphic concatenation", _X + "trusts the model in pbt/docgen.py."),
 "C07": ("property-based testing: printed trees against parsed trees, and a reference grammar of a line", _X + "at most 60 style markers on a line."),
 "C08": ("round-trip property-based testing: escape, embed, render, compare", _X + "lone surrogates and carriage returns in files are outside."),
 "C09": ("metamorphic property-based testing: substitution of variables by their values; model-based documents", _X + "values without braces, backslashes, backticks and line feeds."),
 "C10": ("round-trip property-based testing of arguments with a writer and a reference of aliases", _X + "values that no spelling can represent are outside."),
 "C11": ("model-based property testing of sequences of attachments", _X + "trusts the model of attachment."),
 "C12": ("metamorphic property-based testing: guarded text against the text without guard", _X + "two known findings are kept out by construction and probed."),
 "C13": ("model-based property testing of headers and tables of contents in nested scopes", _X + "trusts the reference nesting algorithm in the check."),
 "C14": ("model-based property testing of links in nested scopes, with faults", _X + "one known finding is kept out by construction and probed."),
 "C15": ("model-based property testing of footnotes in nested scopes, with faults; differential against the text alone", _X + "trusts the reference of scopes."),
 "C16": ("model-based property testing of block groups, with faults; differential against blocks alone", _X + "trusts the reference of scopes."),
 "C17": ("model-based property testing of lists: a reference for nesting and numbering", _X + "trusts the reference."),
 "C18": ("metamorphic property-based testing: text in blocks against the text alone", _X + "the oracle is the code itself on the text without blocks."),
 "C19": ("model-based property testing of lines of code with markers", _X + "trusts the model of lines."),
 "C20": ("model-based property testing: graphs of included files against an interpreter; differential against files processed alone", _X + "up to 25 files; files are local regular files."),
 "C21": ("round-trip property-based testing of macros; metamorphic for their text", _X + "values that no spelling can represent are outside."),
 "C22": ("differential property-based testing against a reference implementation of the matching of templates", _X + "trusts the reference of the documented order."),
 "C23": ("differential property-based testing: visitor against a reference renderer; model of the precedence of sources", _X + "trusts Jinja for single templates."),
 "C24": ("round-trip property-based testing with a safe YAML loader", _X + "trusts PyYAML's safe loader."),
 "C25": ("stateful model-based property testing against nested dictionaries", _X + "one known finding is kept out by construction and probed."),
 "C26": ("differential property-based testing: command line against library, with snapshots of the files and injected failures", _X + "files in scratch directories, run as root (permission faults are not generated)."),
 "C27": ("model-based property testing of the loading functions, YAML round trip", _X + "trusts PyYAML's safe loader."),
 "C28": ("property-based testing: invariants over the node graph, mutation of copies", _X + "the documented exceptions for parents are in the statement."),
 "C29": ("metamorphic property-based testing: documents with debug tags against the same documents with another tag; messages against the rendered data", _X + "at least once and at most as often as shown, not an exact number of messages."),
}
