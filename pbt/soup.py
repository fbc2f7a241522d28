"""Texts that are not necessarily valid: mixtures of pieces of Mau syntax."""

from .gen import D

INLINE = ["a", "word", " ", " ", "  ", "*", "_", "^", "~", "`", "``", "\\", "\\\\", "$", "%", "{", "}", "{v1}", "{v2}", "{undef}", "{{v1}}",
          "{}", "{ }", "[", "]", "(", ")", '"', "'", ",", "=", ":", "#", "@", "!", "[link](", "[link](a)", "[link](a, b)", '[link]("a', "[link]",
          "[header](h1)", "[header](h1, t)", "[header]()", "[footnote](f1)", "[footnote](f2)", "[footnote]()", "[class](a, b)", "[class]()",
          "[image](a)", "[image]()", "[unicode](41)", "[unicode]()", "[raw](a)", "[raw]()", "[mailto](a)", "[mailto]()",
          "[custom](a, b=c)", "[custom](a=b, c)", "[if:v1==a](b, c)", "[if:v1==a](b)", "[if:v1](a)", "[if:v1=a](a)", "[ifeval:v1==a](v1, v2)",
          "[ifeval:v1==a](v1)", "[if:undef==a](b)", "[if](a)", "[if:](a)", "[foo:v1==a](b)", "[if:v1==a]()", "[x](#a,#b,*c)", "[x](*a,*b)", "[x](@source)", "[x](@nope)",
          "é", "日", "\u00a0", "\t", "😀", "\u2028", "\r", "\x00", "\x0b", "\ufeff", "//", "////", "---", "=", "<<", ".", ":v1:", "![", "](", ")(", "[]()", "[ ](x)"]

LINES = ["", "", "", " ", "text", "= header", "== header", "=", "==", "= ", "=h", "* item", "** item", "# item", "## item", "*", "* ", "#* x", "*x", " * x",
         "---", "--- ", "----", "----", "====", "####", "++++", "----x", "// c", "//", "////", "////", "/////", "[a]", "[a, b=c]", "[]", "[ ]", "[,]", "[a,,b]", "[=]", "[a=]", "[=a]",
         '["a]', '["a", b]', '["a" x]', '[a="b" c]', "[a=b, c]", "[#t]", "[#]", "[*s]", "[*]", "[*a, *b]", "[@source]", "[@source, python]", "[@nope]", "[@]", "[#mau:x]",
         "[engine=raw]", "[engine=source]", "[engine=nope]", "[engine=]", "[isolate=false]", "[isolate=x]", "[footnote=f1]", "[footnote=f2]", "[footnote=]",
         "[group=g, position=p]", "[group=g, position=q]", "[group=g]", "[position=p]", "[name=h1]", "[name=h2]", "[name=]", "[internal_id=x]", "[start=auto]", "[start=3]", "[start=x]", "[start=]",
         "[classes=]", '[classes="a,b"]', "[{v1}]", "[{undef}]", "[a={v1}]",
         "[engine=source, marker_delimiter=|]", "[engine=source, marker_delimiter=]", "[engine=source, highlight_marker=]",
         ".label", ". label", ".role label", ".role", ".", "..", ".a.b c", ".{v1} x", ". {undef}",
         ":v1:a", ":v2:{v1}", ":v2:{undef}", ":v1:", ":v1", ":+v1:", ":-v1:", ":+v1", ":+:", ":.:a", ":v1.a:b", ":v1.:b", ":.a:b", "::", ":", ":a b:c", ":mau_x:x",
         ":v1:*a*", ":v1:`a", ":v1:[link](a)", ":v1:a, b=c", ":v1:@source", ":v1:= x",
         "@if v1==a", "@if v1!=a", "@if v1 == a", "@if v1=a", "@if v1", "@if", "@if undef==a", "@if ==a", "@if v1==", "@if v1=={v2}", "@if {undef}==a", "@foo a==b", "@", "@@", "@if v1==a==b", "@ifv1==a",
         "<< toc", "<<toc", "<< footnotes", "<< image:a.png", "<< image", "<< image:", "<< raw:f1.txt", "<< raw:missing.txt", "<< raw", "<< mau:f1.mau", "<< mau:f2.mau", "<< mau:missing.mau", "<< mau",
         "<< blockgroup:g", "<< blockgroup:x", "<< blockgroup", "<< custom", "<< custom:a, b=c", "<< custom:a=b, c", "<<", "<< ", "<< :a", "<< A:b", "<< mau:.", "<< raw:.", "<< raw:", "<< toc:a", "<< mau:f1.mau, pass_environment=false",
         "<< mau:f1.mau, call:v1=x", "<< mau:f1.mau, call:=x", "<< mau:main.mau", "<< toc:#t, *s", "<< raw:bin.dat",
         "code:1:", "code:@:", "code:@+:", "code::", ":1:", "a:@x:", "code:", ":::", "::", "code|1|", "    indented", "aaaa", "    ", "\t\t\t\t", "\u3000\u3000\u3000\u3000",
         "{v1}", "{undef}", "`", "*a*", "*a", "a_b_c", "\\", "a\\", "{", "{v1"]

NESTED = ["----", "====", "####", "++++", "~~~~", "aaaa"]


def inline_soup(d, maxn=8):
    out = []
    for _ in range(d.int(0, maxn)):
        out.append(d.pick(INLINE))
    return "".join(out)


def lines_soup(d, maxn=10, depth=2):
    out = []
    for _ in range(d.int(0, maxn)):
        kind = d.weighted([(6, "line"), (3, "inline"), (2, "mixed"), (1, "block")])
        if kind == "line":
            out.append(d.pick(LINES))
        elif kind == "inline":
            out.append(inline_soup(d))
        elif kind == "mixed":
            out.append(d.pick(LINES) + inline_soup(d, 3))
        elif depth > 0:
            delim = d.pick(NESTED)
            out.append(delim)
            out += lines_soup(d, 5, depth - 1)
            if d.chance(9):
                out.append(delim)
    return out


def text_soup(d, maxn=10):
    return "\n".join(lines_soup(d, maxn)) + d.pick(["", "", "\n", "\n\n", "\r\n", " "])


VALUES = ["a", "", "x", "*b*", "`", "{v1}", "[link](x)", "a, b=c", "@source", "= h", "\\", '"', "日本", "h1", "f1", "#t", "[", "]", "true", "false", " "]


def env_soup(d):
    env = {}
    for name in ["v1", "v2", "v1.a", "flag"]:
        if d.chance(4):
            v = d.pick(VALUES)
            if not ("v1" in env and name == "v1.a"):
                env[name] = v
    return env


__all__ = ["D", "inline_soup", "lines_soup", "text_soup", "env_soup"]
