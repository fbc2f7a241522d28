"""Known findings: genuine defects that are recorded instead of repaired.

/verif/known-findings.txt lists them, one per line:

    KNOWN-FINDING: property=<id> probe=<name> <what fails>
    fixed: property=<id> <commit> <what failed>

The first form names a probe, a file of /verif/known/ with a case of an arm
that fails. The probe is run on every run of the check: when the case still
fails, the line is printed. A fixed line suppresses nothing.
"""

import json
import os
import re
import tempfile

from . import boot

FILE = os.path.join(boot.VERIF, "known-findings.txt")


def entries(prop):
    if not os.path.exists(FILE):
        return
    with open(FILE) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\S+) probe=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                yield m.group(2), m.group(3)


def report(prop):
    from .core import Violation, load_check

    for probe, what in entries(prop):
        path = os.path.join(boot.VERIF, "known", probe + ".json")
        with open(path) as f:
            data = json.load(f)
        module = load_check(prop)
        arms = {a.name: a for a in module.ARMS}
        checker = arms[data["arm"]].check if data["arm"] in arms else getattr(module, data["arm"])
        cwd = os.getcwd()
        with tempfile.TemporaryDirectory(prefix="verif-known-") as scratch:
            os.chdir(scratch)
            try:
                checker(data["case"])
            except Violation:
                yield f"KNOWN-FINDING: property={prop} {what}"
            finally:
                os.chdir(cwd)
