"""Make /verif/seeded/<id>/ from a description file.

    python3 tools/mkseed.py desc.py [--test]

desc.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)] and
DEMO (Python text run with the repository as working directory; exit 0 on the
unchanged tree, nonzero with the edit).  The demonstration is run on scratch
copies with and without the edit; --test also runs the existing tests.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
. /opt/vp/env.sh
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    d = os.path.join(HERE, "seeded", ns["ID"])
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for f, old, new in ns["EDITS"]:
            p = os.path.join(repo, f)
            s = open(p, newline="").read()
            if s.count(old) != 1:
                print("%d matches in %s for %r" % (s.count(old), f, old))
                return 1
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "diff"], cwd=repo, text=True,
                              stdout=subprocess.PIPE).stdout
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w", newline="").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(
            "import os\nimport sys\nsys.path.insert(0, os.getcwd())\n" +
            ns["DEMO"].lstrip("\n"))
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"],
                   "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = subprocess.run(["git", "apply", "--check",
                            os.path.join(d, "patch.diff")], cwd="/repo")
        print("applies:", r.returncode == 0)
        for label, cwd in (("unchanged", "/repo"), ("edited", repo)):
            if label == "edited" and any(f.endswith((".f90", ".c"))
                                         for f, _, _ in ns["EDITS"]):
                print("compiled source edited: check with vcheck --bug")
                continue
            r = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=cwd,
                               stdout=subprocess.PIPE, text=True,
                               stderr=subprocess.STDOUT, timeout=300)
            print(label, "exit", r.returncode, r.stdout[-600:])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.exit(main())
