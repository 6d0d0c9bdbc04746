#!/usr/bin/env python3
"""Copy /repo/src to gen/ and add the two modules its lib.rs names but the repository does not contain.

usage: sync.py [SRC] [DST]. Files are written only when their content changes, so cargo rebuilds only then."""
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
src = sys.argv[1] if len(sys.argv) > 1 else "/repo/src"
dst = sys.argv[2] if len(sys.argv) > 2 else os.path.join(here, "gen")
want = {}
for d, _, fs in os.walk(src):
    for f in fs:
        if f.endswith(".rs"):
            p = os.path.join(d, f)
            want[os.path.relpath(p, src)] = open(p, "rb").read()
for m in ("linear", "nonlinear"):
    # should the repository ever get these modules back, its own are used
    if m + ".rs" not in want and m + "/mod.rs" not in want:
        want[m + ".rs"] = open(os.path.join(here, "adapt", m + ".rs"), "rb").read()
hooks = open(os.path.join(here, "adapt", "hooks.rs"), "rb").read()
want["verif_hooks.rs"] = hooks
want["lib.rs"] = want["lib.rs"] + b"\npub mod verif_hooks;\n"
for rel, b in want.items():
    p = os.path.join(dst, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p, "rb").read() != b:
        open(p, "wb").write(b)
for d, _, fs in os.walk(dst):
    for f in fs:
        p = os.path.join(d, f)
        if os.path.relpath(p, dst) not in want:
            os.unlink(p)
