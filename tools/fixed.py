#!/usr/bin/env python3
"""Writes the "fixed:" lines of known-findings.txt (the commits are those of /repo)."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject (without "fix: ") -> (property, what failed)
FIXED = [
 ("accept values with colons in the conditions of macros", "C12", "[if:v==a:b](x) was rejected, because of the colon in the value"),
 ("parse unclosed style markers only once (lines with many of them took exponential time)", "C01", "a line with some tens of unclosed style markers, such as \"*_~^\" 20 times, took exponential time"),
 ("place the error of a wrong condition of ifeval at the condition", "C02", "the error of [ifeval:fault](a) began inside of the name of the macro"),
 ("read template files as UTF-8", "C26", "template files were read with the encoding of the locale: with a locale that is not UTF-8 a template with other characters than ASCII raised UnicodeDecodeError"),
 ("place the error of a wrong condition of a macro at the condition", "C02", "the error of [if:fault](a) began at the second character of the condition"),
 ("place errors in the value of a variable at the value", "C02", "the error of an undefined variable in \":x:a {nope}\" had the columns of the value counted from the beginning of the line"),
 ("give an empty environment for an empty namespace", "C23", "an empty dictionary as mau.visitor.templates.custom, mau.parser.aliases (with an alias) or mau.parser.source_highlight_style_aliases (with a source block) raised AttributeError"),
 ("report tokens that cannot start a paragraph as parser errors", "C01", "a multi-line construct left without an owner, such as \"[a]\" before a closed section, raised TokenError out of process()"),
 ("report a control statement without a condition as a parser error", "C01", "\"@if\" followed by nothing raised IndexError"),
 ("accept headers and list items whose text is empty", "C01", "\"= {x}\" or \"* {x}\" with an empty variable raised an internal exception"),
 ("report any unreadable included file as a parser error", "C01", "including a directory or a file that is not UTF-8 raised OSError or UnicodeDecodeError"),
 ("report a blockgroup include without a group as a parser error", "C01", "\"<< blockgroup\" without arguments raised an internal exception"),
 ("report an invalid list start as a parser error", "C01", "\"[start=x]\" before a list raised ValueError"),
 ("support source marker delimiters and prefixes of any length", "C19", "delimiters and highlight prefixes longer than one character left part of the marker in the code"),
 ("continue a sentence after an inline condition without output", "C12", "the text after \"[if:x==y](a)\" with no other case was dropped"),
 ("ifeval accepts variables that are not strings", "C12", "ifeval of a variable of the configuration that is a number or a boolean raised an internal exception"),
 ("keep source lines that end with two consecutive delimiters", "C19", "a line of code that ends with \"::\" was taken as having an empty marker"),
 ("honour quotes and escapes in every macro argument", "C21", "quotes and escapes in arguments that are not the first were split or lost"),
 ("apply conditions to footnote and group blocks", "C12", "a false condition did not drop a footnote block or a block of a group"),
 ("detect include loops that go through a block", "C20", "a file that includes itself inside a block recursed until RecursionError"),
 ("allow a file to be included more than once", "C20", "including twice the same file (no loop) was reported as a loop"),
 ("report duplicate footnotes at their position", "C02", "the error of a footnote defined twice had no position"),
 ("never derive an output file equal to the input file", "C26", "the derived output name could be the input file, which was overwritten"),
 ("accept equal signs in the value of command line variables", "C27", "--env key=a=b raised ValueError"),
 ("add the arguments of an alias in the order of its definition", "C10", "the unnamed arguments of an alias were added in the reverse order"),
 ("do not look for prefixes inside tags and subtypes", "C22", "a template whose tag or subtype contains the text of a prefix was matched as prefixed"),
 ("create a Jinja visitor without an environment", "C23", "JinjaVisitor without an environment raised AttributeError"),
 ("nest variables whose name is also a namespace", "C25", "asdict() raised an exception when a name is both a value and a namespace"),
 ("clone environments without losing variables", "C25", "clone() lost variables"),
 ("do not count nested lists as items when numbering lists", "C17", "start=auto counted nested lists as items"),
 ("converting an environment into a dictionary must not change it", "C25", "asdict() changed the environment"),
 ("number lists with start=auto ignoring unordered lists", "C17", "an unordered list between two ordered ones changed the automatic number"),
 ("connect references across blocks that are not isolated", "C18", "links and notes across isolate=false blocks were not connected"),
 ("report footnotes defined again in a block that is not isolated", "C15", "a footnote defined twice across an isolate=false block was accepted"),
 ("visit headers that link to themselves or to each other", "C14", "a header that links to itself made the visitor recurse for ever"),
 ("connect footnotes and header links mentioned in the text of other macros", "C15", "mentions inside the text of links and classes were not connected"),
 ("keep the spaces of named arguments between quotes", "C10", "key=\" a \" lost its spaces"),
 ("do not take the next line as the value of a variable", "C09", "\":name:\" without a value took the next line as value"),
 ("do not take the next line as the arguments of an inclusion", "C06", "\"<< toc:\" took the next line as arguments"),
 ("connect the references contained in the text of footnotes", "C15", "mentions inside of the body of a footnote were not connected"),
 ("connect the header links shown in tables of contents", "C14", "links in the text of headers were not resolved in tables of contents"),
 ("excluded nodes have no effect on the rest of the document", "C12", "a header or block dropped by a condition was still registered (ids, footnotes, counters)"),
 ("end a list at a line made of spaces", "C05", "a line made of spaces after a list did not end it"),
 ("report control macros without a condition", "C12", "\"[if](a)\" raised an internal exception"),
 ("empty namespaces must not hide the variables of the environment", "C25", "storing an empty dictionary hid the flat variables with the same prefix"),
 ("views and source data must not change the environment", "C25", "changing a view or the source data changed the environment"),
 ("a footnote shown inside itself has an empty content in all visitors", "C15", "a footnote that mentions itself made the visitors recurse for ever"),
 ("keep the output file when the result cannot be encoded", "C26", "a result that cannot be encoded left an empty output file"),
 ("keep the line of raw and source blocks that contain a single blank line", "C08", "a raw or source block with a single blank line lost it"),
 ("detect include loops that go through different paths of a file", "C20", "a loop through \"a.mau\" and \"./a.mau\" recursed until RecursionError"),
 ("accept generic macros whose name begins with if", "C21", "[iframe](x) was rejected as a wrong condition"),
 ("give each group node its own items when the same group is shown more than once", "C28", "the items of a group shown twice had the last inclusion as parent"),
 ("do not share arguments and positions between a node and its copies", "C28", "changing the arguments or the position of a copy changed the original"),
 ("end the position of headers and list items at the end of their text", "C04", "the position of headers and list items ended at the start of their text"),
 ("ignore spaces after the type of an inclusion", "C05", "\"<< toc \" with a trailing space gave an additional empty paragraph"),
 ("place the text before a backslash at the end of a line", "C04", "the text of \"a\\\\ \\\\\" had a position that ended on the following line"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s", "--reverse"], capture_output=True, text=True).stdout.splitlines()
lines = []
used = set()
for row in log:
    h, s = row.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    hit = [f for f in FIXED if f[0] == s[5:]]
    if not hit:
        raise SystemExit(f"no description: {s}")
    used.add(s[5:])
    lines.append(f"fixed: property={hit[0][1]} {h} {hit[0][2]}")
for f in FIXED:
    if f[0] not in used:
        raise SystemExit(f"no commit: {f[0]}")
p = os.path.join(HERE, "known-findings.txt")
old = [l for l in open(p).read().splitlines() if l and not l.startswith("fixed:")]
open(p, "w").write("\n".join(old + lines) + "\n")
print(len(lines))
