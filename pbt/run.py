#!/usr/bin/env python3
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path = [p for p in sys.path if p != os.path.dirname(os.path.abspath(__file__))]

from pbt import boot  # noqa: E402,F401  (import paths)
from pbt.core import main  # noqa: E402

sys.exit(main(sys.argv[1:]))
