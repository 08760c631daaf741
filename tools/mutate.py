"""Sensitivity measurement (not part of any check): apply each listed source change to a scratch
copy of the repository, run the property's quick check against the copy (VF_REPO) and report.
usage: python tools/mutate.py [-s SEED] [--seeded] [ID-or-property ...]"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("mutants", os.path.join(HERE, "mutants.py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)


def main():
    args = sys.argv[1:]
    seed = "1"
    if args[:1] == ["-s"]:
        seed, args = args[1], args[2:]
    todo = list(mod.MUTANTS)
    if "--seeded" in args:
        args.remove("--seeded")
        todo = []
        sd = os.path.join(os.path.dirname(HERE), "seeded")
        for n in sorted(os.listdir(sd)):
            p = json.load(open(os.path.join(sd, n, "meta.json")))["property"]
            todo.append((n, p, None, os.path.join(sd, n, "patch.diff"), None))
    todo.sort(key=lambda m: m[1])
    for mid, prop, path, old, new in todo:
        if args and mid not in args and prop not in args:
            continue
        d = tempfile.mkdtemp(prefix="mut_")
        try:
            subprocess.run(["cp", "-a", "/repo/src", d], check=True)
            if path is None:
                subprocess.run(["git", "apply", "--directory=" + d.lstrip("/"), "--unsafe-paths", old], check=True, cwd="/")
            else:
              f = os.path.join(d, "src/flowMC", path)
              s = open(f).read()
              if s.count(old) < 1:
                print(f"{mid} {prop} BADPATCH count={s.count(old)}", flush=True)
                continue
              open(f, "w").write(s.replace(old, new, 1) if not isinstance(new, tuple) else s.replace(old, new[0]))
            t = time.time()
            r = subprocess.run([os.path.join(os.path.dirname(HERE), "check.sh"), prop, "quick"], capture_output=True, text=True,
                               env={**os.environ, "VF_REPO": d, "VERIF_SEED": seed, "VERIF_TIER": "quick", "VF_OUT": d})
            vio = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            why = [l for l in r.stdout.splitlines() if "violated" in l.lower() or "FAIL" in l]
            print(f"{mid} {prop} rc={r.returncode} {time.time()-t:.0f}s {'CAUGHT' if r.returncode == 1 and vio else 'MISSED'} {len(vio)} {(why or vio or [''])[0][:160]}", flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
