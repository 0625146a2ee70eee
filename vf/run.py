"""python -m vf.run Cxx : run one check (see vf/core.py main)."""
import sys
from . import core

MODULES = ["lang", "comp", "libstr", "libmem", "libmisc", "libfmt", "libmath", "libscan", "libio", "librt", "libtime", "libfs", "robust", "reject", "selfhost", "lookup", "libhdr", "asmchk", "fault"]


def registry():
    import importlib
    reg = {}
    for m in MODULES:
        reg.update(importlib.import_module("vf." + m).CHECKS)
    return reg


if __name__ == "__main__":
    reg = registry()
    core.main(sys.argv[1], reg[sys.argv[1]])
