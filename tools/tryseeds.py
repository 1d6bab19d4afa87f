"""Run the checks against copies of the repository with planted changes.

    python3 tools/tryseeds.py [seed ...] [--all]

Each change under seeded/ is applied to a copy and the check of its
property is run on it (every check with --all).  Nothing under /repo is
touched; no check depends on this file.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    every = "--all" in sys.argv
    names = [a for a in sys.argv[1:] if a != "--all"]
    names = names or sorted(os.listdir(os.path.join(HERE, "seeded")))
    claimed = [c["property"] for c in json.load(
        open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
    for n in names:
        d = os.path.join(HERE, "seeded", n)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="seed-")
        try:
            tree = os.path.join(tmp, "repo")
            shutil.copytree("/repo", tree, ignore=shutil.ignore_patterns(
                ".git", "*.so", "__pycache__", "build"))
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")],
                           cwd=tree, check=True)
            for p in (claimed if every else [prop]):
                r = subprocess.run(
                    [sys.executable, os.path.join(HERE, "run_check.py"), p],
                    env=dict(os.environ, VERIF_REPO=tree,
                             VERIF_EVIDENCE=tmp),
                    capture_output=True, text=True)
                word = {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "ERROR")
                if not every or r.returncode:
                    print("%-34s %s %s" % (n, p, word), flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
