"""Writes /verif/seeded/ID from edits of the sources at /repo's HEAD.  Used interactively: exec a file that calls plant()."""
import json, os, shutil, subprocess, sys, tempfile
def plant(id, prop, edits, needs, breaks, demo, **files):
    t = tempfile.mkdtemp()
    subprocess.run(f"git -C /repo archive HEAD src python | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x", shell=True, check=True)
    for f, old, new in edits:
        p = os.path.join(t, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    d = f"/verif/seeded/{id}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", t, "diff"], capture_output=True, text=True, check=True).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.copy("/verif/tools/demo_lib.py", d + "/demo_lib.py")
    open(d + "/demo.py", "w").write("from demo_lib import *\n" + demo.strip("\n") + "\n\nrun(main)\n")
    py = "/opt/vp/venv/bin/python" if files.pop("venv", False) else "python3"
    open(d + "/demo.sh", "w").write(f'#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec {py} "$(dirname "$0")/demo.py"\n')
    for k, v in files.items(): open(f"{d}/{k}", "w").write(v)
    shutil.rmtree(t)
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
