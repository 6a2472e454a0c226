#!/usr/bin/env python3
"""replay.py HARNESS CONFIG FLAVOUR MODE SEED INDEX: rebuild one workload from /repo and run a single case with a full trace."""
import os, sys, tempfile, subprocess, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import check  # noqa: E402
h, cfg, fl, mode, seed, idx = sys.argv[1:7]
d = tempfile.mkdtemp(prefix="replay")
exe = check.build_all([{"h": h, "cfg": cfg, "flavour": fl}], d)[0][(h, cfg, fl)]
r = subprocess.run([exe, mode, seed, idx, str(int(idx) + 1), "-"], env=dict(os.environ, VRT_TRACE="1", **check.SAN_ENV)).returncode
shutil.rmtree(d)
sys.exit(r)
