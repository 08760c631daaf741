"""Write seeded/<id>/ from seeds.py and confirm each: the demo passes on /repo, fails on a patched
copy, and (with -t) the copy passes the repository's tests.  usage: plant.py [-t] [ids]"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("seeds", os.path.join(HERE, "seeds.py"))
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
PRE = '''import os
import sys

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import jax

jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp
import numpy as np


def check(ok, what):
    if not bool(ok):
        print("FAILED:", what)
        sys.exit(1)

'''
SH = '#!/bin/bash\n# run with the repository as the current directory\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n'


def main():
    args = sys.argv[1:]
    tests = "-t" in args
    args = [a for a in args if a != "-t"]
    for s in mod.SEEDS:
        if args and s["id"] not in args and s["property"] not in args:
            continue
        out = os.path.join(os.path.dirname(HERE), "seeded", s["id"])
        os.makedirs(out, exist_ok=True)
        d = tempfile.mkdtemp(prefix="plant_")
        try:
            c = os.path.join(d, "repo")
            subprocess.run(["cp", "-a", "/repo", c], check=True)
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(c, f)
                t = open(p).read()
                if old not in t:
                    print(s["id"], "BAD EDIT", repr(old))
                    ok = False
                open(p, "w").write(t.replace(old, new, 1))
            if not ok:
                continue
            diff = subprocess.run(["git", "-C", c, "diff"], capture_output=True, text=True, check=True).stdout
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.py"), "w").write(PRE + s["demo"].lstrip("\n") + 'print("ok")\n')
            sh = os.path.join(out, "demo.sh")
            open(sh, "w").write(SH)
            os.chmod(sh, 0o755)
            json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(out, "meta.json"), "w"), indent=1)
            env = {**{k: v for k, v in os.environ.items() if k != "PYTHONPATH"}, "PYTHONDONTWRITEBYTECODE": "1"}
            a = subprocess.run([sh], cwd="/repo", capture_output=True, text=True, env=env)
            b = subprocess.run([sh], cwd=c, capture_output=True, text=True, env=env)
            msg = f"{s['id']} {s['property']} clean={a.returncode} patched={b.returncode}"
            if a.returncode or not b.returncode:
                msg += " BAD DEMO\n" + a.stdout[-500:] + a.stderr[-800:] + b.stdout[-300:] + b.stderr[-500:]
            elif "FAILED:" not in b.stdout:
                msg += " (crash) " + b.stderr[-400:]
            else:
                msg += " " + [l for l in b.stdout.splitlines() if l.startswith("FAILED")][0][:120]
            if tests:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-n", "4", "test/unit", "test/integration/test_normalizingFlow.py"],
                                   cwd=c, capture_output=True, text=True, env={**env, "PYTHONPATH": os.path.join(c, "src")})
                msg += "  tests: " + (r.stdout.strip().splitlines() or ["?"])[-1]
            print(msg, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
