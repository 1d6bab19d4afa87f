"""Try a check on edited copies of the sources.

    python3 tools/trycases.py C14 [case ...]

tools/cases/<id>.py holds CASES = [(label, expected, [(file, old, new)])]
with expected 'bug' (the check must report), 'same' (the edit keeps the
behaviour, the check must stay quiet) or 'miss' (a known limit).  The copies
live in a temporary directory; nothing here is used by a check run.
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def one(pid, case):
    label, want, edits = case
    d = tempfile.mkdtemp(prefix="case")
    try:
        dst = os.path.join(d, "repo")
        ig = shutil.ignore_patterns(".git", "input", "data", "docs", "*.nc",
                                    "MSLP", "*.so", "build", "tests")
        shutil.copytree(REPO, dst, ignore=ig)
        for f, old, new in edits:
            p = os.path.join(dst, f)
            s = open(p, encoding="utf-8").read()
            if s.count(old) < 1:
                return label, want, "EDIT", "text not found in %s: %r" % (
                    f, old)
            s = s.replace(old, new)
            open(p, "w", encoding="utf-8").write(s)
            if p.endswith(".py"):
                compile(s, p, "exec")
        env = dict(os.environ, VERIF_REPO=dst,
                   VERIF_EVIDENCE=os.path.join(d, "ev"))
        r = subprocess.run([sys.executable, "run_check.py", pid], cwd=HERE,
                           env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        return label, want, r.returncode, r.stdout
    finally:
        shutil.rmtree(d)


def main():
    pid = sys.argv[1]
    p = os.path.join(HERE, "tools", "cases", pid.lower() + ".py")
    spec = importlib.util.spec_from_file_location("cases", p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    cases = [c for c in m.CASES
             if len(sys.argv) < 3 or c[0] in sys.argv[2:]]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for label, want, rc, out in ex.map(lambda c: one(pid, c), cases):
            ok = {"bug": rc == 1, "same": rc == 0, "miss": rc == 0}[want]
            print("%-4s %s %s (exit %s)" % ("ok" if ok else "BAD", want,
                                            label, rc))
            if not ok or len(sys.argv) > 2:
                bad += 1
                print("\n".join("      " + x[:300] for x in
                                out.splitlines()[-(25 if len(sys.argv) > 2 else 6):]))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
