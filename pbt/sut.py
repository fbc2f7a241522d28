"""Calls into the code under test, through its public interface only."""

import contextlib
import os
import shutil
import signal

from . import boot  # noqa: F401
from .core import Violation

from mau import Mau
from mau.environment.environment import Environment
from mau.message import BaseMessageHandler, MauException
from mau.visitors.base_visitor import BaseVisitor

CPU_LIMIT = 20  # seconds; cases take milliseconds

_BUSY = False


class Timeout(BaseException):
    pass


def _alarm(signum, frame):
    raise Timeout()


@contextlib.contextmanager
def limited(what="processing", seconds=CPU_LIMIT):
    """Bound the CPU time of a call. Cases need milliseconds, the limit
    is orders of magnitude above, so reaching it means that
    the call does not end."""
    global _BUSY
    if _BUSY:  # already limited by a caller
        yield
        return
    _BUSY = True
    old = signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)
    try:
        yield
    except Timeout:
        raise Violation(f"{what} did not end within {seconds} s of CPU time") from None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)
        _BUSY = False


class Handler(BaseMessageHandler):
    type = "verif"

    def __init__(self):
        self.messages = []

    def process_lexer_error(self, message):
        self.messages.append(("lexer", message))

    def process_parser_error(self, message):
        self.messages.append(("parser", message))

    def process_visitor_error(self, message):
        self.messages.append(("visitor", message))

    def process_visitor_debug(self, message):
        self.messages.append(("debug", message))


class Outcome:
    """What processing a text did."""

    def __init__(self):
        self.result = None
        self.error = None
        self.handler = None
        self.parser = None
        self.lexer = None
        self.environment = None

    @property
    def ok(self):
        return self.error is None


def describe(exc):
    return f"{type(exc).__name__}: {exc}"


def make_env(env):
    environment = Environment()
    if env:
        environment.dupdate(env)
    return environment


@contextlib.contextmanager
def files_in_cwd(files):
    """Create the given files (relative names) in the scratch directory
    of the worker, and remove them."""
    created = []
    dirs = set()
    try:
        for name, content in (files or {}).items():
            assert not name.startswith("/") and ".." not in name
            d = os.path.dirname(name)
            if d:
                os.makedirs(d, exist_ok=True)
                dirs.add(name.split("/")[0])
            with open(name, "w", encoding="utf-8", newline="") as f:
                f.write(content)
            created.append(name)
        yield
    finally:
        for name in created:
            with contextlib.suppress(OSError):
                os.unlink(name)
        for d in dirs:
            shutil.rmtree(os.path.join(os.getcwd(), d), ignore_errors=True)


def process(text, env=None, visitor=BaseVisitor, source="main.mau", environment=None, handler=None,
            limit=True):
    """Process a text as Mau.process does, step by step to keep the intermediate objects.

    A MauException is an outcome; anything else is a violation."""
    out = Outcome()
    out.handler = handler or Handler()
    out.environment = environment if environment is not None else make_env(env)

    with limited():
        try:
            mau = Mau(out.handler, out.environment)
            buffer = mau.init_text_buffer(text, source)
            out.lexer = mau.run_lexer(buffer)
            out.parser = mau.run_parser(out.lexer.tokens)
            out.result = mau.run_visitor(visitor, out.parser.output.document)
        except MauException as exc:
            out.error = exc
        except (Violation, Timeout):
            raise
        except Exception as exc:
            raise Violation(f"processing raised {describe(exc)}") from exc
    return out


def error_text(out):
    if out.error is None:
        return None
    message = getattr(out.error, "message", None)
    return getattr(message, "text", repr(message))


STRIP = ("_context", "parent")


def canon(data, strip=STRIP):
    """The data of a rendered node without positions and parents, recursively."""
    if isinstance(data, dict):
        return {k: canon(v, strip) for k, v in data.items() if k not in strip}
    if isinstance(data, (list, tuple)):
        return [canon(v, strip) for v in data]
    return data


def rendered(text, env=None, files=None, source="main.mau"):
    """Data of a document that must be accepted."""
    with files_in_cwd(files):
        out = process(text, env, source=source)
    if not out.ok:
        raise Violation(f"a valid document is rejected: {error_text(out)}")
    return out


def content(text, env=None, files=None):
    out = rendered(text, env, files)
    if not isinstance(out.result, dict):
        raise Violation(f"rendering gave {out.result!r}")
    return canon(out.result.get("content", []))


def diff(a, b, path=""):
    """First difference between two JSON values, as text. a is expected."""
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return f"{path or '/'}: expected {brief(a)}, got {brief(b)}"
    if isinstance(a, dict):
        for k in a:
            if k not in b:
                return f"{path}/{k}: missing (expected {brief(a[k])})"
        for k in b:
            if k not in a:
                return f"{path}/{k}: unexpected {brief(b[k])}"
        for k in a:
            d = diff(a[k], b[k], f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]")
            if d:
                return d
        if len(a) != len(b):
            return (f"{path}: expected {len(a)} elements, got {len(b)}; "
                    f"first extra: {brief((a + b)[min(len(a), len(b))] if len(a) > len(b) else b[len(a)])}")
        return None
    if isinstance(a, bool) is not isinstance(b, bool):
        return f"{path}: expected {a!r}, got {b!r}"
    return None if a == b else f"{path}: expected {brief(a)}, got {brief(b)}"


def brief(x, limit=300):
    s = repr(x)
    return s if len(s) <= limit else s[:limit] + "..."


def require_equal(expected, got, what):
    d = diff(expected, got)
    if d:
        raise Violation(f"{what}: {d}")
