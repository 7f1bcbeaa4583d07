#!/usr/bin/env python3
"""replay.py <file>: re-runs a recorded violation on the real code (rebuilt from /repo).  Exit 1 if it shows again."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.abspath(sys.argv[1]); v = json.load(open(f))
if v["engine"] != "kani":
    e = "treesnat" if v["engine"] == "trees" else v["engine"]
    subprocess.run(["bash", os.path.join(V, "build.sh"), e, v["profile"]], check=True)
    sys.exit(subprocess.run([os.path.join(V, "target", e, v["profile"], e), "replay", f]).returncode)
sys.path.insert(0, os.path.join(V, "runner"))
import kani
sys.exit(kani.replay(v))
