"""mkseed.py ID PROP FILE <<< JSON-free spec: used interactively to write /verif/seeded/<id> from replacements.
usage from python: mk(id, prop, [(file, old, new), ...], demo_python, needs, breaks)"""
import json, os, subprocess, shutil
V = "/verif/seeded"


def mk(i, prop, reps, demo, needs, breaks):
    d = f"{V}/{i}"
    os.makedirs(d, exist_ok=True)
    w = f"/tmp/mkseed-{i}"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", w])
    for f, a, b in reps:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(a) == 1, (i, f, s.count(a), a)
        open(p, "w").write(s.replace(a, b))
    diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(demo.lstrip("\n"))
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexport EIGEN3_PATH=/usr/include/eigen3 PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 CUDA_VISIBLE_DEVICES= MPLBACKEND=Agg\n'
                                    'export PYTHONPATH="$PWD" PYTHONWARNINGS=ignore\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
    shutil.rmtree(w)
