"""Pieces shared by the checks: arms built on the document model."""

from hypothesis import strategies as st

from . import sut
from .core import Arm, Violation
from .docgen import Cfg, Doc, Root, Var, doc_case, draw_doc, draw_env
from .gen import D


def composite(fn):
    """fn(d) -> case, as a strategy factory."""

    @st.composite
    def strategy(draw):
        return fn(D(draw))

    return strategy


def doc_strategy(cfg, n=None, tweak=None):
    @st.composite
    def strategy(draw):
        doc, env = draw_doc(draw, cfg, n)
        case = doc_case(doc, env)
        if tweak:
            tweak(D(draw), doc, case)
        return case

    return strategy


def run_case(case, **kw):
    with sut.files_in_cwd(case.get("files")):
        return sut.process(case["text"], case.get("env"), **kw)


def accepted(case):
    out = run_case(case)
    if not out.ok:
        raise Violation(f"a valid document is rejected: {sut.error_text(out)}")
    return out


def got_content(out):
    """The content of a rendered document, None for an empty one."""
    if out.result == {}:
        return None
    if not isinstance(out.result, dict) or out.result.get("_type") != "document":
        raise Violation(f"rendering a document gave {sut.brief(out.result)}")
    return sut.canon(out.result.get("content"))


def check_doc(case, project=None, calls=True):
    out = accepted(case)
    got = got_content(out)
    expected = case["expected"]
    if project:
        expected, got = project(expected), project(got)
    sut.require_equal(expected, got, "rendered document differs from the model")
    if calls:
        check_calls(case, out)
    return out


def check_calls(case, out):
    got = [{"caller": c.caller_uri, "callee": c.callee_uri, "args": dict(c.call_arguments)}
           for c in out.parser.output.include_calls]
    # A recorded call is followed by those made by the included file.
    want = list(case.get("calls", []))
    sut.require_equal(sorted(map(str, want)), sorted(map(str, got)), "recorded inclusion calls")


def doc_arm(name, cfg, quick, interesting, rule, thorough=None, project=None, n=None, extra=None):
    """Documents of a profile against the model. interesting: labels that make a case non-trivial."""
    interesting = set(interesting)

    def check(case):
        out = check_doc(case, project)
        if extra:
            extra(case, out)
        return bool(interesting & set(case["labels"])), case["labels"]

    return Arm(name, doc_strategy(cfg, n), check, quick, thorough, rule)


def walk(x):
    """All the dictionaries (rendered nodes) of a result, in order."""
    if isinstance(x, dict):
        if "_type" in x:
            yield x
        for k, v in x.items():
            if k != "parent":
                yield from walk(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk(v)


def weights(**kw):
    return kw


__all__ = ["Arm", "Cfg", "D", "Doc", "Root", "Var", "Violation", "accepted", "check_calls", "check_doc", "composite",
           "doc_arm", "doc_case", "doc_strategy", "draw_doc", "draw_env", "got_content", "run_case", "st", "sut", "walk",
           "weights"]
