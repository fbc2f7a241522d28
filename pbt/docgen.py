"""Generator of whole documents (block level). See gen.py and model.py."""

import hypothesis

from .gen import (HAZARD, SIMPLE, D, Inline, class_list, clone, gen_args, p_escape, plain, quote_arg, write_arg)
from .model import MN, Local, Scope, TooLarge, merge_words, no_args, render_document

ALL_MACROS = ("link", "class", "custom", "mailto", "image", "unicode", "raw", "footnote", "header", "if", "ifeval")

DELIMS = ["----", "====", "****", "####", "++++", "~~~~", "$$$$", "____", "aaaa", "````", "::::", "....", "[[[[",
          "@@@@", "<<<<", "éééé", "....", "!!!!", "]]]]", '""""', "0000", "%%%%", "{{{{", "\\\\\\\\"]

ROLES = ["title", "caption", "role-1", "cite", "x_y", "2"]

KINDS = ("paragraph", "header", "list", "block", "hr", "raw", "source", "image", "include", "toc", "footnotes",
         "footnote", "group", "blockgroup", "mau", "rawfile", "vardef", "excluded")

DEFAULT_WEIGHTS = {
    "paragraph": 10, "header": 5, "list": 5, "block": 5, "hr": 2, "raw": 2, "source": 2, "image": 2, "include": 1,
    "toc": 1, "footnotes": 1, "footnote": 1, "group": 1, "blockgroup": 1, "mau": 1, "rawfile": 1, "vardef": 3,
    "excluded": 2,
}


class Kept(str):
    """A line before which nothing can be inserted: in a raw block or in a comment."""


class Text(str):
    """A line that ends with text."""


class Inclusion(str):
    """An inclusion: spaces at the end change nothing."""


class Comment(str):
    """A single-line comment."""


class Opening(str):
    """The first line of a multi-line comment."""


class Inner(str):
    """The delimiter that opens a block of Mau text."""


class Outer(str):
    """The delimiter that closes a block of Mau text."""


class Var:
    __slots__ = ("nodes", "usable", "simple", "plain", "value")

    def __init__(self, value, nodes, simple, plain_):
        self.value = value  # the string in the environment
        self.nodes = nodes  # what it means inside text
        self.usable = nodes is not None
        self.simple = simple  # can be used anywhere
        self.plain = plain_  # value that can be compared in any condition


class Refs:
    """Names that will be defined in a scope, and the mentions of them."""

    def __init__(self, scope):
        self.scope = scope
        self.footnotes = []
        self.headers = []
        self.complex = set()
        self.todo_footnotes = []
        self.todo_headers = []
        self.use_toc = False

    def text_required(self, name):
        return name in self.complex

    def mention(self, node, name):
        self.scope.mentions.append((node, name))

    def link(self, node):
        self.scope.links.append(node)


class Cfg:
    def __init__(self, weights=None, macros=ALL_MACROS, attach=4, cond=True, noise=3, special=True, depth=2,
                 max_nodes=6, inline_depth=2, variables=True, verbatim=True, escaped=True, styles=True, toc=None,
                 refs=True, words=None, args_vars=True, positions=False, max_lines=3, labels=True, isolate=4):
        w = dict(DEFAULT_WEIGHTS)
        if weights is not None:
            w = weights
        self.weights = w
        self.macros = macros
        self.attach = attach
        self.cond = cond
        self.noise = noise
        self.special = special
        self.depth = depth
        self.max_nodes = max_nodes
        self.inline_depth = inline_depth
        self.variables = variables
        self.verbatim = verbatim
        self.escaped = escaped
        self.styles = styles
        self.toc = toc
        self.refs = refs
        self.words = words
        self.args_vars = args_vars
        self.positions = positions
        self.max_lines = max_lines
        self.labels = labels
        self.isolate = isolate


class Root:
    """What is shared by all the texts of a case."""

    def __init__(self):
        self.labels = set()
        self.files = {}
        self.sources = {}  # the lines of the included Mau files
        self.calls = []
        self.counter = 0


class Doc:
    def __init__(self, d, cfg, root, vars_, depth, refs=None, delims=(), file="main.mau", in_note=False,
                 parent=None):
        self.d = d
        self.cfg = cfg
        self.root = root
        self.vars = vars_
        self.depth = depth
        self.delims = tuple(delims)
        self.file = file
        self.parent = parent
        self.offset = 0
        self.lines = []
        self.local = Local()
        self.new_scope = refs is None
        if refs is None:
            refs = Refs(Scope())
            self.init_refs(refs)
        self.refs = refs
        self.groups_todo = []
        self.restricted = False  # no references, no side effects
        self.pending_kind = None

    # Helpers ---------------------------------------------------------------

    def label(self, name):
        self.root.labels.add(name)

    def init_refs(self, refs):
        d, cfg = self.d, self.cfg
        if not cfg.refs:
            refs.use_toc = bool(cfg.weights.get("toc"))
            return
        if cfg.weights.get("footnote"):
            refs.footnotes = [f"fn{i}" for i in range(d.weighted([(5, 0), (3, 1), (2, 2), (1, 3)]))]
            refs.todo_footnotes = list(refs.footnotes)
        refs.use_toc = bool(cfg.weights.get("toc")) and (d.chance(6) if cfg.toc is None else cfg.toc)
        if "header" in cfg.macros:
            names = [f"h{i}" for i in range(d.weighted([(5, 0), (3, 1), (2, 2), (1, 3)]))]
            refs.headers = names
            refs.todo_headers = list(names)
            refs.complex = {n for n in names if d.chance(3)}

    def inline(self, maxn=4, depth=None, macros=None, special=None, in_header=False, styles=None):
        cfg = self.cfg
        m = cfg.macros if macros is None else macros
        if self.restricted:
            m = [x for x in m if x not in ("footnote", "header")]
        inl = Inline(self.d, self, macros=m, special=cfg.special if special is None else special,
                     variables=cfg.variables, depth=cfg.inline_depth if depth is None else depth,
                     verbatim=cfg.verbatim, escaped=cfg.escaped, styles=cfg.styles if styles is None else styles)
        if cfg.words:
            inl.words = cfg.words
        src, nodes = inl.sentence(inl.depth, maxn=maxn)
        return src, nodes

    def line_inline(self, **kw):
        """Inline content that can be a line of a paragraph."""
        src, nodes = self.inline(**kw)
        if HAZARD.match(src):
            from .gen import word

            src = "W " + src
            nodes = [word("W ", "W ")] + nodes
        return src, merge_words(nodes)

    def emit(self, line):
        self.lines.append(line)

    # Noise -----------------------------------------------------------------

    def comment(self):
        d = self.d
        self.label("comment")
        if d.chance(7):
            self.emit(Comment(d.pick(["// comment", "//", "//x", "// = no header", "// {undefined}", "//// four", "//[a]",
                                      "///"])))
        else:
            self.emit(Opening("////"))
            for _ in range(d.int(0, 3)):
                self.emit(Kept(d.pick(["text", "", "= H", "[arg]", "* item", "{undefined}", ":a:b", "// c", "////x", " ////",
                                       ". label", "@if a==b"])))
            self.emit(Kept("////"))

    def blank(self):
        self.emit(self.d.weighted([(8, ""), (1, " "), (1, "    ")]))

    def noise(self, variables=True):
        d = self.d
        if not d.chance(self.cfg.noise):
            return
        kind = d.weighted([(4, "blank"), (3, "comment"), (2, "var")])
        if kind == "blank":
            self.blank()
        elif kind == "comment":
            self.comment()
        elif variables and self.cfg.variables and not self.restricted:
            self.vardef(names=["n1", "n2"])

    # Variables -------------------------------------------------------------

    def vardef(self, names=None):
        d = self.d
        name = d.pick(names or ["v1", "v2", "va", "ns.x", "ns.y", "V-3", "flag", "a+b"])
        self.label("vardef")
        if name in self.vars:
            self.label("redefinition")
        kind = d.weighted([(4, "simple"), (2, "flag"), (3, "markup"), (1, "ref")])
        if kind == "flag":
            value = d.pick(["true", "false"])
            self.emit(f":{'+' if value == 'true' else '-'}{name}:" + d.pick(["", "", "ignored"]))
            from .gen import word

            self.vars[name] = Var(value, [word(value)], True, value)
            return
        if kind == "ref" and self.vars:
            usable = sorted(n for n, v in self.vars.items() if v.usable)
            if usable:
                other = d.pick(usable)
                v = self.vars[other]
                self.emit(f":{name}:{{{other}}}")
                self.vars[name] = Var(v.value, v.nodes, v.simple, v.plain)
                self.label("var-of-var")
                return
        from .gen import word

        if kind == "markup" and self.cfg.styles:
            inl = Inline(d, None, macros=(), special=self.cfg.special, variables=False, depth=1,
                         verbatim=self.cfg.verbatim, escaped=False)
            src, nodes = inl.sentence(1, maxn=2)
            self.emit(f":{name}:{src}")
            self.vars[name] = Var(None, nodes, False, None)
            self.label("markup-var")
            return
        value = d.pick(SIMPLE)
        self.emit(f":{name}:{value}")
        self.vars[name] = Var(value, [word(value)], True, value)

    # Attachments -------------------------------------------------------------

    def args(self, keys=None, macro=False, maxu=3):
        d = self.d
        kw = {"keys": keys} if keys else {}
        a = gen_args(d, maxu=maxu, **kw)
        if self.cfg.args_vars and self.vars and d.chance(2) and self.cfg.variables:
            simple = sorted(n for n, v in self.vars.items() if v.simple and v.value is not None)
            if simple and "vk" not in a["kwargs"]:
                n = d.pick(simple)
                a["kwargs"]["vk"] = self.vars[n].value
                a["src"] += (", " if a["src"] else "") + "vk={" + n + "}"
                self.label("var-in-args")
        return a

    def attachments(self, args=None, cond=None, force_args=False, no_args_=False, want_labels=True):
        """Emit arguments, labels and a condition in any order, with anything
        that is inert in between. Returns (arguments, labels)."""
        d, cfg = self.d, self.cfg
        entries = []
        self.had_args = False
        result = no_args()
        if args is None and not no_args_ and d.chance(cfg.attach):
            args = self.args()
        if args is not None:
            self.had_args = True
            result = args
            if d.chance(1):
                entries.append(("args-dropped", self.args()))
                self.label("args-overridden")
            entries.append(("args", args))
            self.label("args")
        labels = {}
        if want_labels and cfg.labels and d.chance(cfg.attach):
            many = d.int(0, 30) == 30
            for i in range(d.int(8, 12) if many else d.weighted([(6, 1), (2, 2), (1, 3)])):
                entries.append(("label", f"r{i}" if many else d.pick(ROLES[:3]) if d.chance(7) else d.pick(ROLES)))
            self.label("labels")
        if cond is not None:
            if d.chance(1):
                entries.append(("cond-dropped", not cond))
            entries.append(("cond", cond))
        elif cfg.cond and self.conditions() and d.chance(2):
            entries.append(("cond", True))
        # Interleave, keeping the order of overridden ones.
        for i in range(len(entries) - 1, 0, -1):
            j = i - (d.int(0, i) if d.chance(5) else 0)
            a, b = entries[i], entries[j]
            if not any(e[0].split("-")[0] == a[0].split("-")[0] and e is not a for e in entries[j:i]) and \
                    not any(e[0].split("-")[0] == b[0].split("-")[0] and e is not b for e in entries[j + 1:i + 1]):
                entries[i], entries[j] = b, a
        for kind, v in entries:
            self.noise(variables=False)
            if kind.startswith("args"):
                self.emit(f"[{v['src']}]")
            elif kind == "label":
                role = v
                src, nodes = self.inline(maxn=2, depth=1)
                nodes = merge_words(nodes)
                node = MN("label", role=role, content=nodes)
                node.extra["doc"] = self
                node.extra["line"] = (len(self.lines), len(self.lines))
                labels[role] = node
                shown = "" if role == "title" and d.chance(7) else role
                self.emit(Text(f".{shown} {src}"))
            else:
                truth = v
                self.condition(truth)
            self.noise(variables=False)
        return result, labels

    def conditions(self):
        return sorted(n for n, v in self.vars.items() if v.plain is not None)

    def condition(self, truth):
        d = self.d
        name = d.pick(self.conditions())
        value = self.vars[name].plain
        other = value + "x" if d.chance(5) else d.pick([w for w in SIMPLE if w != value])
        same = d.chance(5)
        op = "==" if same == truth else "!="
        v = value if same else other
        self.label(f"cond-{truth}")
        if d.chance(1):
            holders = [n for n in self.conditions() if self.vars[n].plain == v]
            if holders:
                v = "{" + d.pick(holders) + "}"
        sp = d.pick(["", " ", "  "])
        sp2 = d.pick(["", " "])
        self.emit(f"@if{d.pick([' ', ' ', '  ', ''])}{name}{sp}{op}{sp2}{v}" if not name[0].islower()
                  else f"@if {name}{sp}{op}{sp2}{v}")

    # Nodes -------------------------------------------------------------------

    def add(self, node, start, end=None):
        node.extra["doc"] = self
        node.extra["line"] = (start, len(self.lines) - 1 if end is None else end)
        self.local.content.append(node)
        self.label(node.type)

    def separate(self):
        """End the current construct."""
        self.blank()
        self.noise()

    def paragraph(self):
        d = self.d
        a, labels = self.attachments()
        self.paragraph_body(a, labels)

    def paragraph_body(self, a, labels, keep=True):
        d = self.d
        node = MN("paragraph", args=a, content=[], labels=labels)
        start = len(self.lines)
        for i in range(d.int(1, self.cfg.max_lines)):
            if i and d.chance(1):
                self.comment()
            src, nodes = self.line_inline()
            line = MN("paragraph-line", content=nodes, labels={})
            line.extra["doc"] = self
            line.extra["line"] = (len(self.lines), len(self.lines))
            line.surf = src
            node.f["content"].append(line)
            self.emit(Text(src + (" " * d.int(1, 3) if d.chance(1) else "")))
        end = len(self.lines) - 1
        if keep:
            self.add(node, start, end)
        self.separate()

    def header(self, name=None):
        d = self.d
        a = None
        internal_id = None
        extra = {}
        if name is None and self.refs.todo_headers and d.chance(6) and not self.restricted:
            name = self.refs.todo_headers.pop(0)
        if name is not None:
            extra["name"] = name
        if d.chance(2):
            internal_id = d.pick(["my-id", "id 2", "été"])
            extra["internal_id"] = internal_id
        if extra:
            a = self.args() if d.chance(4) else dict(no_args(), src="")
            a = dict(a, kwargs=dict(a["kwargs"]))
            a["src"] += "".join((", " if (a["src"] or i) else "") + f"{k}={v}" for i, (k, v) in enumerate(extra.items()))
        a, labels = self.attachments(args=a)
        self.header_body(a, labels, name, internal_id)

    def header_body(self, a, labels, name, internal_id, keep=True):
        d = self.d
        macros = self.cfg.macros
        if name not in self.refs.complex:
            macros = [m for m in macros if m != "header"]
        level = d.weighted([(4, 1), (4, 2), (3, 3), (1, 4), (1, 5), (1, d.pick([6, 7, 8, 10, 16]))])
        src, nodes = self.inline(maxn=3, macros=macros)
        if src[0] in "= ":
            from .gen import word

            src, nodes = "T" + src, [word("T", "T")] + nodes
        line = "=" * level + d.pick([" ", " ", "  ", ""]) + src
        if len(line) == 4 and len(set(line)) == 1:
            line = "= " + src
            level = 1
        node = MN("header", args=a, level=level, internal_id=internal_id, name=name, content=merge_words(nodes),
                  labels=labels)
        node.extra["surf_line"] = line
        start = len(self.lines)
        self.emit(Text(line))
        if keep:
            self.refs.scope.headers.append(node)
            if name:
                self.refs.scope.named[name] = node
            self.add(node, start)
        if d.chance(5):
            self.separate()
        else:
            self.noise()

    def hr(self):
        a, labels = self.attachments()
        self.hr_body(a, labels)

    def hr_body(self, a, labels, keep=True):
        start = len(self.lines)
        self.emit("---")
        if keep:
            self.add(MN("horizontal-rule", args=a, labels=labels), start)
        if self.d.chance(5):
            self.separate()
        else:
            self.noise()

    def list_(self):
        d = self.d
        args = None
        start_arg = None
        if d.chance(5):
            start_arg = d.pick(["1", "2", "10", "auto", "auto", "0", "-3"])
            args = self.args() if d.chance(3) else dict(no_args(), src="")
            args = dict(args, kwargs=dict(args["kwargs"]))
            args["kwargs"]["start"] = start_arg
            args["src"] += (", " if args["src"] else "") + f"start={start_arg}"
        a, labels = self.attachments(args=args)
        self.list_body(a, labels, start_arg)

    def list_body(self, a, labels, start_arg, keep=True, ordered_allowed=True):
        d = self.d
        n = d.weighted([(2, 1), (3, 2), (3, 3), (2, 4), (1, 6)])
        levels = []
        level = d.weighted([(6, 1), (1, 2), (1, 3)])
        first = level
        for i in range(n):
            if i:
                level = max(first, level + d.weighted([(3, 0), (3, 1), (2, -1), (1, 2), (1, -2)]))
            levels.append(level)
        if d.chance(1) and first > 1 and keep:
            levels.append(first - 1)  # a new list starts without a blank line
            self.label("list-split")
        items = []
        for level in levels:
            c = d.pick("*#") if ordered_allowed else "*"
            prefix = c * level
            if level > 1 and d.chance(2) and ordered_allowed:
                prefix = c + "".join(d.pick("*#") for _ in range(level - 1))
            if d.chance(1):
                src, nodes = "", []
                self.label("empty-item")
            else:
                src, nodes = self.inline(maxn=2)
                nodes = merge_words(nodes)
            line = " " * d.weighted([(8, 0), (1, 1), (1, 4)]) + prefix + " " * d.weighted([(8, 1), (1, 3)]) + src
            if src == "" and line.strip(" ") != prefix:
                src = ""
            if src == "":
                line = line.rstrip(" ") + " "
            if len(line) == 4 and len(set(line)) == 1:
                line += " x"
                nodes = [MN("text", value="x")]
            item = MN("list-item", level=level, content=nodes)
            item.extra["doc"] = self
            item.extra["line"] = (len(self.lines), len(self.lines))
            items.append((prefix, item))
            self.emit(Text(line))
            if d.chance(1):
                self.emit(Comment("// comment"))
        top = build_lists(items)
        attrs = (a, labels, start_arg)
        for k, (ordered, content, count) in enumerate(top):
            if k:
                attrs = (no_args(), {}, None)
            a_, labels_, start_ = attrs
            if start_ == "auto":
                s = self.local.next_ordered
            else:
                s = int(start_ or 1)
            if ordered and keep:
                self.local.next_ordered = s + count
            node = MN("list", args=a_, ordered=ordered, main_node=True, start=s, content=content, labels=labels_)
            if keep:
                lines = [i.extra["line"][0] for i in iter_items(content)]
                self.add(node, min(lines), max(lines))
        self.blank()
        self.noise()

    # Blocks

    def delimiter(self):
        return self.d.pick([x for x in DELIMS if x not in self.delims])

    def child(self, delim, isolated=True, restricted=False):
        c = type(self)(self.d, self.cfg, self.root, self.vars, self.depth - 1,
                refs=None if isolated else self.refs, delims=self.delims + (delim,), file=self.file, parent=self)
        if restricted:
            c.restricted = True
        return c

    def embed(self, delim, child_lines, child=None, kept=False):
        """Emit a block with the given content. kept: it is not Mau text."""
        start = len(self.lines)
        self.emit(delim if kept else Inner(delim))
        if child is not None:
            child.offset = len(self.lines)
        assert delim not in child_lines, (delim, child_lines)
        self.lines.extend([Kept(x) for x in child_lines] if kept else child_lines)
        self.emit(Kept(delim) if kept else Outer(delim))
        return start

    def block_args(self, extra, maxu=3):
        """Arguments with additional named ones (written in any position among named)."""
        d = self.d
        a = self.args(maxu=maxu) if d.chance(4) else dict(no_args(), src="")
        a = dict(a, kwargs=dict(a["kwargs"]))
        for k, v in extra:
            a["kwargs"][k] = v
            w = write_arg(d, v) if ("," in v or " " in v) else (v if d.chance(8) else quote_arg(v))
            a["src"] += (", " if a["src"] else "") + f"{k}={w}"
        return a

    def block(self, purpose=None):
        """A default block. purpose: None, ("footnote", name) or ("group", name, position)."""
        d = self.d
        extra = []
        classes = []
        isolated = True
        if d.chance(3):
            classes = class_list(d, 3)
            extra.append(("classes", ",".join(classes)))
        if d.chance(1):
            extra.append(("engine", "default"))
        if d.chance(self.cfg.isolate):
            isolated = False
            extra.append(("isolate", "false"))
        elif d.chance(1):
            extra.append(("isolate", "true"))
        if purpose and purpose[0] == "footnote":
            extra.append(("footnote", purpose[1]))
        elif purpose:
            extra.append(("group", purpose[1]))
            extra.append(("position", purpose[2]))
        args = self.block_args(extra) if extra else None
        a, labels = self.attachments(args=args)
        delim = self.delimiter()
        child = self.child(delim, isolated)
        if not isolated:
            self.label("isolate-false")
        if d.chance(9) or not isolated:
            child.fill(d.int(1, max(1, self.cfg.max_nodes - 3)))
            child.finish()
        start = self.embed(delim, child.lines, child)
        kwargs = dict(a["kwargs"])
        kwargs.pop("classes", None)
        kwargs.pop("engine", None)
        a = dict(a, kwargs=kwargs)
        node = MN("block", args=a, classes=classes, content=child.local.content, labels=labels)
        node.extra["line"] = (start, len(self.lines) - 1)
        node.extra["doc"] = self
        if purpose is None:
            self.add(node, start)
        elif purpose[0] == "footnote":
            self.refs.scope.bodies[purpose[1]] = child.local.content
            self.label("footnote-body")
        else:
            self.local.groups.setdefault(purpose[1], {})[purpose[2]] = node
            self.label("group-block")
        if d.chance(5):
            self.separate()
        else:
            self.noise()

    def footnote(self):
        if not self.refs.todo_footnotes or self.restricted:
            return self.paragraph()
        self.block(("footnote", self.refs.todo_footnotes.pop(0)))

    def group(self):
        d = self.d
        g = d.pick(["g1", "g2", "g 3"])
        pos = d.pick(["left", "right", "p1", "p2", "p 3", "1"])
        if pos in self.local.groups.get(g, {}):
            return self.paragraph()
        # Reserve the position: the content of the block is a different text.
        self.block(("group", g, pos))

    def blockgroup(self):
        d = self.d
        g = d.pick(["g1", "g2", "g 3"])
        a = gen_args(d, simple=True, maxu=0, tags=True) if d.chance(4) else dict(no_args(), src="")
        inline = d.chance(6)
        src = write_arg(d, g) if d.chance(6) else f"group={write_arg(d, g)}"
        if src.startswith("group=") or not a["src"]:
            full = a["src"] + (", " if a["src"] else "") + src
            if a["kwargs"] or not src.startswith("group="):
                full = a["src"] + (", " if a["src"] else "") + (src if src.startswith("group=") else "group=" + src) \
                    if a["src"] else src
        else:
            full = src + ", " + a["src"]
        node = MN("blockgroup", args=a, name=g, items={})
        start, labels = self.include_line("blockgroup", full, inline)
        node.f["labels"] = labels
        self.local.group_nodes.append(node)
        self.groups_todo.append(g)
        self.add(node, start)
        self.after_include()

    def include_line(self, ctype, src, inline):
        """Emit an include with inline or boxed arguments. Returns (start line, labels)."""
        d = self.d
        if inline:
            _, labels = self.attachments(no_args_=True)
        else:
            _, labels = self.attachments(args=dict(no_args(), src=src))
        start = len(self.lines)
        sp = d.pick([" ", "", "  "])
        if inline and src:
            self.emit(Inclusion(f"<<{sp}{ctype}:{src}"))
        else:
            self.emit(Inclusion(f"<<{sp}{ctype}"))
            if inline and not src:
                pass
        return start, labels

    def after_include(self):
        if self.d.chance(5):
            self.separate()
        else:
            self.noise()

    def raw(self):
        d = self.d
        classes = []
        extra = [("engine", "raw")]
        if d.chance(3):
            classes = class_list(d)
            extra.append(("classes", ",".join(classes)))
        args = self.block_args(extra)
        a, labels = self.attachments(args=args)
        kwargs = dict(a["kwargs"])
        kwargs.pop("engine")
        kwargs.pop("classes", None)
        a = dict(a, kwargs=kwargs)
        delim = self.delimiter()
        lines = self.raw_lines(d.int(0, 4), delim)
        start = self.embed(delim, lines, kept=True)
        content = [MN("raw-line", value=x) for x in lines]
        for i, c in enumerate(content):
            c.extra["doc"] = self
            c.extra["line"] = (start + 1 + i, start + 1 + i)
            c.surf = lines[i]
        self.add(MN("raw", args=a, classes=classes, content=content, labels=labels), start)
        if d.chance(5):
            self.separate()
        else:
            self.noise()

    def raw_lines(self, n, delim=None):
        d = self.d
        out = []
        for _ in range(n):
            k = d.weighted([(8, "plain"), (6, "syntax"), (2, "blank"), (4, "indent"), (1, "near")])
            if k == "near" and delim is not None:
                # Looks like the delimiter.
                x = d.pick([delim + " ", delim + "   ", " " + delim, delim + delim[0], delim[:3], delim + "x"])
            elif k in ("plain", "near"):
                x = plain(d, 3)
            elif k == "blank":
                x = ""
            elif k == "syntax":
                x = d.pick(["// comment", "= header", "[args]", "* item", "{undefined}", ":a:b", "////", ". t", "@if a==b",
                            "<< toc", "---", "`v", "\\{", "a  b", "# x", "*b*", "[link](x)", "trailing  ", "\t tab"])
            else:
                x = " " * d.int(1, 8) + d.pick(["def f():", "x = 1", "return", "    pass"])
            if x in self.delims or x == delim or (len(x) == 4 and len(set(x)) == 1 and self.delims):
                x = "x" + x
            out.append(x)
        return out

    def source(self):
        d = self.d
        language = None
        extra = []
        style = d.weighted([(4, "alias"), (3, "engine")])
        a = gen_args(d, simple=True, maxu=0) if d.chance(3) else dict(no_args(), src="")
        a = dict(a, kwargs=dict(a["kwargs"]))
        parts = []
        if style == "alias":
            parts.append("@source")
        if d.chance(7):
            language = d.pick(["python", "html", "c++", "plain text"])
        named_language = language is not None and d.chance(3)
        if language is not None and not named_language:
            parts.append(language)
        if a["src"]:
            parts.append(a["src"])
        if style == "engine":
            parts.append("engine=source")
        if named_language:
            parts.append(f"language={language}")
        classes = []
        if d.chance(2):
            classes = class_list(d)
            parts.append('classes="' + ",".join(classes) + '"')
        delimiter, prefix, default = ":", "@", "default"
        if d.chance(3):
            delimiter = d.pick(["|", "#", "::", "=!=", ":"])
            parts.append(f"marker_delimiter={delimiter}" if delimiter != "=!=" else 'marker_delimiter="=!="')
        if d.chance(2):
            prefix = d.pick(["!", "hl-", "@@"])
            parts.append(f"highlight_marker={prefix}")
        if d.chance(2):
            default = d.pick(["mark", "strong"])
            parts.append(f"highlight_default_style={default}")
        args = dict(a, src=", ".join(parts))
        a, labels = self.attachments(args=args)
        delim = self.delimiter()
        lines, content = [], []
        for i in range(d.int(1, 4)):
            line, node = self.source_line(i + 1, delimiter, prefix, default, delim)
            lines.append(line)
            content.append(node)
        start = self.embed(delim, lines, kept=True)
        for i, c in enumerate(content):
            c.extra["doc"] = self
            c.extra["line"] = (start + 1 + i, start + 1 + i)
        self.add(MN("source", args=a, language=language or "text", classes=classes, content=content, labels=labels),
                 start)
        if d.chance(5):
            self.separate()
        else:
            self.noise()

    def source_line(self, number, delimiter, prefix, default, delim):
        d = self.d
        code = self.raw_lines(1, delim)[0] if d.chance(8) else ""
        kind = d.weighted([(4, "none"), (3, "marker"), (3, "highlight"), (1, "trap")])
        marker = style = None
        if kind in ("marker", "highlight") and len(delimiter) > 1 and code.endswith(delimiter[0]):
            code += " "  # otherwise the delimiter might be found one character before
        line = code
        if kind == "none":
            if line.endswith(delimiter):
                line = code = code + "."
        elif kind == "trap":
            # Two delimiters at the end, or a single one alone: no marker.
            code = line = d.pick(["std", "a b", ""]) + delimiter * 2
        elif kind == "marker":
            marker = d.pick(["1", "note", "x y"])
            line = code + delimiter + marker + delimiter
        else:
            s = d.pick(["", "", "+", "-", "!", "x", "custom"])
            if s == prefix or (s + "z").startswith(prefix):
                s = ""
            aliases = {"+": "add", "-": "remove", "!": "important", "x": "error"}
            style = aliases.get(s or default, s or default)
            line = code + delimiter + prefix + s + delimiter
        if line in self.delims or line == delim or (len(line) == 4 and len(set(line)) == 1):
            code = line = "code"
            marker = style = None
        node = MN("source-line", line_number=str(number), line_content=code, highlight_style=style,
                  marker=MN("source-marker", value=marker) if marker else None)
        return line, node

    # Includes

    def image(self):
        d = self.d
        uri = d.pick(["pic.png", "http://x.org/a.png?b=c", "a b.jpg", "p,q.png"])
        alt = d.pick(SIMPLE + ["An image", "a, b"]) if d.chance(5) else None
        classes = class_list(d) if d.chance(4) else []
        a = gen_args(d, simple=True, maxu=0) if d.chance(3) else dict(no_args(), src="")
        named = []
        pos = [write_arg(d, uri)]
        by_pos = True
        if alt is not None:
            if d.chance(6):
                pos.append(write_arg(d, alt))
            else:
                by_pos = False
                named.append(f"alt_text={quote_arg(alt)}")
        else:
            by_pos = False
        if classes:
            c = ",".join(classes)
            if by_pos and d.chance(5):
                pos.append(quote_arg(c))
            else:
                named.append(f"classes={quote_arg(c)}")
        src = ", ".join(pos + ([a["src"]] if a["src"] else []) + named)
        node = MN("include-image", args=a, uri=uri, alt_text=alt, classes=classes)
        start, labels = self.include_line("image", src, d.chance(6))
        node.f["labels"] = labels
        self.add(node, start)
        self.after_include()

    def include(self):
        d = self.d
        ctype = d.pick(["custom", "x.y", "a_b", "c#", "video1", "imagex"])
        a = self.args() if d.chance(6) else dict(no_args(), src="")
        node = MN("include", args=a, ctype=ctype)
        start, labels = self.include_line(ctype, a["src"], d.chance(6))
        node.f["labels"] = labels
        self.add(node, start)
        self.after_include()

    def toc(self):
        if not self.refs.use_toc:
            return self.header()
        d = self.d
        a = gen_args(d, simple=True) if d.chance(3) else dict(no_args(), src="")
        node = MN("toc", args=a, plain_entries=[], nested_entries=[])
        start, labels = self.include_line("toc", a["src"], d.chance(5))
        node.f["labels"] = labels
        self.refs.scope.tocs.append(node)
        self.add(node, start)
        self.after_include()

    def footnotes(self):
        d = self.d
        a = gen_args(d, simple=True) if d.chance(3) else dict(no_args(), src="")
        node = MN("footnotes", args=a, footnotes=[])
        start, labels = self.include_line("footnotes", a["src"], d.chance(5))
        node.f["labels"] = labels
        self.refs.scope.notes.append(node)
        self.add(node, start)
        self.after_include()

    def new_file(self, ext):
        self.root.counter += 1
        return self.d.pick(["", "", "sub/", "a b/"]) + f"f{self.root.counter}.{ext}"

    def rawfile(self):
        d = self.d
        name = self.new_file("txt")
        lines = self.raw_lines(d.int(0, 4)) or [""]
        self.root.files[name] = "\n".join(lines)
        a = gen_args(d, simple=True, maxu=0) if d.chance(3) else dict(no_args(), src="")
        src = (write_arg(d, name) if d.chance(7) or a["kwargs"] else None)
        if src is None:
            src = (a["src"] + ", " if a["src"] else "") + f"uri={name}"
        else:
            src = src + (", " + a["src"] if a["src"] else "")
        node = MN("include-raw", args=a, uri=name, content=[MN("raw-line", value=x) for x in lines])
        start, labels = self.include_line("raw", src, d.chance(6))
        node.f["labels"] = labels
        self.add(node, start)
        self.after_include()

    def mau(self):
        d = self.d
        if self.depth <= 0:
            return self.paragraph()
        name = self.new_file("mau")
        from .gen import word

        pass_env = d.chance(7)
        calls = {}
        for _ in range(d.weighted([(4, 0), (3, 1), (1, 2)])):
            calls[d.pick(["v1", "va", "new", "ns.x"])] = d.pick(SIMPLE)
        vars_ = dict(self.vars) if pass_env else {}
        for k, v in calls.items():
            vars_[k] = Var(v, [word(v)], True, v)
        a = gen_args(d, simple=True, maxu=0) if d.chance(3) else dict(no_args(), src="")
        parts = [write_arg(d, name)] + ([a["src"]] if a["src"] else [])
        if not pass_env:
            parts.append("pass_environment=false")
        elif d.chance(1):
            parts.append("pass_environment=true")
        parts += [f"call:{k}={v}" for k, v in calls.items()]
        # The attachments are processed before the include.
        start, labels = self.include_line("mau", ", ".join(parts), d.chance(6))
        call = {"caller": self.file, "callee": name, "args": calls}
        self.root.calls.append(call)
        if pass_env:
            vars_ = dict(self.vars)
            for k, v in calls.items():
                vars_[k] = Var(v, [word(v)], True, v)
        child = type(self)(d, self.cfg, self.root, vars_, self.depth - 1, file=name)
        if d.chance(9):
            child.fill(d.int(1, max(1, self.cfg.max_nodes - 3)))
            child.finish()
        self.root.files[name] = child.text()
        self.root.sources[name] = child.lines
        node = MN("include-mau", args=a, uri=name, content=child.local.content, labels=labels)
        self.label("passes-env" if pass_env else "no-env")
        self.add(node, start)
        self.after_include()

    # Excluded nodes

    WILD_TEXT = ["{undefined}", "[footnote](nope)", "[header](nope)", "[link]()", "[if:x==1](a)", "text", "*a*",
                 "[header](h0)", "[footnote](fn0)"]
    WILD_BLOCK = ["{undefined}", "[footnote](nope)", "[header](nope, x)", "= Header", "[name=h0]\n= Other",
                  "[footnote=fn0]\n&&&&\nx\n&&&&", "[group=g1, position=left]\n&&&&\nx\n&&&&", ":v1:changed", ":+flag:",
                  ":n1:n1", "<< mau:missing.mau", "<< blockgroup:nope", "# one\n# two", "* item", "@if zzz==1\ntext",
                  "<< toc", "<< footnotes", "text", "[unclosed=", "&&&&\nunclosed", "%%%", "[name=dup]\n= A\n[name=dup]\n= A"]
    WILD_INCLUDE = ["mau:missing.mau", "raw:missing.txt", "custom:a", "toc", "footnotes", "blockgroup:nope", "image:a.png",
                    "image", "mau", "blockgroup:g1", "toc:nope"]

    def excluded(self):
        """A node under a false condition: nothing of it has any effect, even if it is not valid."""
        d = self.d
        if not self.conditions():
            return self.paragraph()
        was = self.restricted
        self.restricted = True
        kind = d.pick(["paragraph", "header", "list", "hr", "block", "raw", "include", "wild", "footnote", "group"])
        self.label("excluded-" + kind)
        args = None
        if kind == "header" and self.refs.headers and d.chance(5):
            args = dict(no_args(), src="name=" + d.pick(self.refs.headers))
        elif kind == "list" and d.chance(5):
            args = dict(no_args(), src=d.pick(["start=auto", "start=5", "start=x"]))
        elif kind == "raw":
            args = dict(no_args(), src=d.pick(["engine=raw", "engine=source", "@source, python", "engine=nope"]))
        elif kind == "footnote":
            args = dict(no_args(), src="footnote=" + d.pick(["fn0", "fn1", "zz"]))
        elif kind == "group":
            args = dict(no_args(), src="group=g1, position=" + d.pick(["left", "p1"]))
        if kind in ("footnote", "group", "block") and d.chance(5):
            if args is None:
                args = dict(no_args(), src="isolate=false")
            else:
                args["src"] += ", isolate=false"
        a, labels = self.attachments(args=args, cond=False)
        wild = d.chance(5)
        if kind == "paragraph":
            if wild:
                for _ in range(d.int(1, 2)):
                    self.emit("W " + d.pick(self.WILD_TEXT))
                self.separate()
            else:
                self.paragraph_body(a, labels, keep=False)
        elif kind == "header":
            if wild:
                self.emit("= " + d.pick(self.WILD_TEXT))
                self.noise()
            else:
                self.header_body(a, labels, None, None, keep=False)
        elif kind == "list":
            if wild:
                mark = d.pick("*#")
                for k in range(d.int(1, 3)):
                    self.emit(mark * d.int(1, 3 if k else 1) + " " + d.pick(self.WILD_TEXT))
                self.separate()
            else:
                self.list_body(a, labels, None, keep=False)
        elif kind == "hr":
            self.hr_body(a, labels, keep=False)
        elif kind == "include":
            self.emit("<< " + d.pick(self.WILD_INCLUDE if not self.had_args
                                     else [w for w in self.WILD_INCLUDE if ":" not in w]))
            self.after_include_restricted()
        else:
            delim = self.delimiter()
            if wild or kind == "wild":
                lines = []
                for _ in range(d.int(0, 3)):
                    lines += d.pick(self.WILD_BLOCK).split("\n") + [""]
                if delim in lines or any(x in self.delims for x in lines):
                    lines = ["text"]
            elif kind == "raw":
                lines = self.raw_lines(d.int(0, 3), delim)
            else:
                child = self.child(delim, isolated=True, restricted=True)
                child.paragraph()
                lines = child.lines
            self.embed(delim, lines, kept=True)
            self.separate()
        self.restricted = was

    def after_include_restricted(self):
        if self.d.chance(5):
            self.blank()

    # Documents -----------------------------------------------------------------

    def step(self):
        d, cfg = self.d, self.cfg
        w = cfg.weights
        options = []
        for k in KINDS:
            weight = w.get(k, 0)
            if not weight:
                continue
            if k in ("block", "footnote", "group", "mau") and self.depth <= 0:
                continue
            if k == "vardef" and not cfg.variables:
                continue
            options.append((weight, k))
        kind = d.weighted(options)
        getattr(self, {"list": "list_"}.get(kind, kind))()

    def fill(self, n):
        if self.d.chance(self.cfg.noise):
            self.blank()
        for _ in range(n):
            self.step()

    def finish(self):
        """Define what was promised and resolve references."""
        if self.new_scope:
            while self.refs.todo_headers:
                self.header(self.refs.todo_headers.pop(0))
            while self.refs.todo_footnotes:
                self.flush_footnote(self.refs.todo_footnotes.pop(0))
        for g in self.groups_todo:
            if not self.local.groups.get(g):
                self.flush_group(g)
        self.local.finalise()
        if self.new_scope:
            self.refs.scope.finalise()

    def flush_footnote(self, name):
        if self.depth > 0:
            return self.block(("footnote", name))
        self.blank()
        self.emit(f"[footnote={name}]")
        delim = self.delimiter()
        w = self.d.pick(SIMPLE)
        start = len(self.lines)
        self.embed(delim, [w])
        self.refs.scope.bodies[name] = [simple_paragraph(w, self, start + 1)]
        self.blank()

    def flush_group(self, g):
        if self.depth > 0:
            return self.block(("group", g, "late"))
        self.blank()
        self.emit(f"[group={g}, position=late]")
        delim = self.delimiter()
        w = self.d.pick(SIMPLE)
        start = len(self.lines)
        self.embed(delim, [w])
        a = no_args()
        a["kwargs"] = {"group": g, "position": "late"}
        block = MN("block", args=a, classes=[], labels={}, content=[simple_paragraph(w, self, start + 1)])
        block.extra.update({"doc": self, "line": (start, len(self.lines) - 1)})
        self.local.groups.setdefault(g, {})["late"] = block
        self.blank()

    def text(self):
        return "\n".join(self.lines)


def simple_paragraph(w, doc=None, line=None):
    t = MN("text", value=w)
    ln = MN("paragraph-line", content=[t], labels={})
    p = MN("paragraph", content=[ln], labels={})
    if doc is not None:
        p.extra.update({"doc": doc, "line": (line, line)})
    return p


def iter_items(content):
    for n in content:
        if n.type == "list-item":
            yield n
        else:
            yield from iter_items(n.f["content"])


def build_lists(items):
    """Group a sequence of (marker, item) into lists: an item deeper than the
    previous ones opens a list, a shallower one closes it.

    Returns the top level lists: (ordered, content, number of items)."""
    pos = 0

    def collect():
        nonlocal pos
        level = len(items[pos][0])
        ordered = items[pos][0][0] == "#"
        content = []
        while pos < len(items):
            here = len(items[pos][0])
            if here == level:
                content.append(items[pos][1])
                pos += 1
            elif here > level:
                sub_ordered, sub = collect()
                content.append(MN("list", ordered=sub_ordered, main_node=False, start=1, content=sub, labels={}))
            else:
                break
        return ordered, content

    top = []
    while pos < len(items):
        ordered, content = collect()
        top.append((ordered, content, sum(1 for c in content if c.type == "list-item")))
    return top


# --------------------------------------------------------------------------
# Cases
# --------------------------------------------------------------------------


def draw_env(d, cfg):
    from .gen import word

    env = {}
    vars_ = {}
    if cfg.variables:
        for name in ["v1", "env.a", "flag"]:
            if d.chance(6):
                value = d.pick(SIMPLE + ["true"])
                env[name] = value
                vars_[name] = Var(value, [word(value)], True, value)
    return env, vars_


def draw_doc(draw, cfg, n=None, root=None):
    """A finished document: (Doc, env)."""
    d = D(draw)
    env, vars_ = draw_env(d, cfg)
    doc = Doc(d, cfg, root or Root(), vars_, cfg.depth)
    doc.fill(n if n is not None else d.int(1, cfg.max_nodes))
    doc.finish()
    return doc, env


def doc_case(doc, env):
    content = doc.local.content
    try:
        expected = render_document(content) if content else None
    except TooLarge:
        hypothesis.reject()
    return {
        "text": doc.text(),
        "env": env,
        "files": dict(doc.root.files),
        "expected": expected,
        "calls": doc.root.calls,
        "labels": sorted(doc.root.labels),
    }
