"""Loaded by the fork server: engine and contracts."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc import run  # noqa: E402

run.load()
