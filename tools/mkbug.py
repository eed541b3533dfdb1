"""Helper to write a planted change: mk(id, property, edits, needs, breaks, demo).
edits = [(path, old, new)]; the patch is produced in a scratch copy of /repo."""
import json, os, shutil, subprocess, tempfile
V = "/verif"


def mk(bid, prop, edits, needs, breaks, demo):
    w = tempfile.mkdtemp(prefix="bug-")
    shutil.copytree("/repo", w + "/r", symlinks=True)
    try:
        for path, old, new in edits:
            fp = os.path.join(w, "r", path)
            t = open(fp, encoding="utf-8").read()
            assert t.count(old) == 1, (bid, path, t.count(old))
            open(fp, "w", encoding="utf-8").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        assert diff
    finally:
        shutil.rmtree(w)
    d = os.path.join(V, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", encoding="utf-8").write(diff)
    open(d + "/demo.py", "w", encoding="utf-8").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: /repo. Exit 0 when the property holds in this scenario.\n'
                                    'W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\n'
                                    'export XDG_DATA_HOME=$W/data HOME=$W PYTHONDONTWRITEBYTECODE=1 TMPDIR=$W; unset OCELOT_OUTPUT\n'
                                    '/opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", bid)
