"""Orchestrator: python -m vf.run C01 [--tier quick|thorough] [--replay FILE] [--facet NAME]

Exit codes: 0 the property held on everything explored; 1 with a VIOLATION line: it is broken;
2: the check itself failed (error)."""
import argparse
import ast
import concurrent.futures as cf
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

from vf import boot
from vf.boot import PY, VERIF

JOBS = int(os.environ.get("VF_JOBS", "8"))


def facet_table(prop):
    """Names, shard counts etc. without importing jax in the orchestrator."""
    code = (
        "import json,importlib\nfrom vf import boot\nboot.ensure_deps()\n"
        f"m=importlib.import_module('vf.props.{prop.lower()}')\n"
        "print('@@'+json.dumps(dict(facets=[dict(name=f.name,shards=f.shards,ts=f.thorough_shards,"
        "x64=f.x64,rule=f.rule,doc=f.doc,quick=f.quick,thorough=f.thorough) for f in m.FACETS],"
        "assumptions=getattr(m,'ASSUMPTIONS',[]))))"
    )
    r = subprocess.run([PY, "-c", code], env=boot.worker_env(True), cwd=VERIF,
                       capture_output=True, text=True)
    for line in r.stdout.splitlines():
        if line.startswith("@@"):
            return json.loads(line[2:])
    # importing the library under test may itself be what is broken
    print(r.stdout[-2000:], r.stderr[-4000:], file=sys.stderr)
    return None


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line:
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "known":
                    out[d["id"]] = d
    return out


def run_job(prop, facet, shard, seed, tier, outdir):
    out = os.path.join(outdir, f"{facet['name']}.{shard}.json")
    log = os.path.join(outdir, f"{facet['name']}.{shard}.log")
    cmd = [PY, "-m", "vf.worker", prop, facet["name"], str(shard), str(seed), tier, out]
    limit = 800 if tier == "quick" else 7200
    with open(log, "w") as lf:
        try:
            r = subprocess.run(cmd, env=boot.worker_env(facet["x64"]), cwd=outdir,
                               stdout=lf, stderr=lf, timeout=limit)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    if os.path.exists(out):
        return json.load(open(out))
    return dict(prop=prop, facet=facet["name"], shard=shard, evaluations=0, inner=0, nontrivial=0,
                labels={}, samples=[], hashes=[], violation=None, findings={}, skipped_budget=0,
                wall=0.0, error=f"worker ended without a result (rc={rc}): " + open(log).read()[-3000:])


def replay(prop, path):
    d = json.load(open(path))
    code = (
        "import json,sys,importlib,warnings\nwarnings.filterwarnings('ignore')\n"
        "from vf import boot\nboot.ensure_deps()\nfrom vf.core import *\n"
        f"d=json.load(open({path!r}))\n"
        f"m=importlib.import_module('vf.props.{prop.lower()}')\n"
        "f={f.name:f for f in m.FACETS}[d['facet']]\n"
        "try:\n    run_case(f,d['case'],Ctx())\n"
        "except Violation as v:\n    print('@@VIOLATED '+str(v)); sys.exit(1)\n"
        "print('@@HELD')\n"
    )
    path = os.path.abspath(path)
    r = subprocess.run([PY, "-c", code], env=boot.worker_env(bool(d.get("x64", True))), cwd=VERIF)
    if r.returncode == 1:
        print(f"VIOLATION property={prop} replay={path}")
    return r.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--facet", action="append")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    boot.ensure_deps()
    if a.replay:
        sys.exit(replay(prop, a.replay))
    t0 = time.time()
    table = facet_table(prop)
    if table is None:
        print(f"ERROR property={prop}: the harness or the library could not be imported")
        sys.exit(2)
    facets = table["facets"]
    if a.facet:
        facets = [f for f in facets if f["name"] in a.facet]
    jobs = []
    for f in facets:
        for s in range(f["shards"] if tier == "quick" else max(f["shards"], f["ts"])):
            jobs.append((f, s))
    # interleave so that the shards of one facet do not all queue at the end
    jobs.sort(key=lambda j: j[1])
    outdir = tempfile.mkdtemp(prefix=f"vf_{prop}_")
    try:
        with cf.ThreadPoolExecutor(JOBS) as ex:
            results = list(ex.map(lambda j: run_job(prop, j[0], j[1], seed, tier, outdir), jobs))
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

    known = known_findings(prop)
    violations, errors = [], []
    by_facet = {}
    findings = {}
    for r in results:
        if r["violation"]:
            violations.append(r)
        if r["error"]:
            errors.append(r)
        findings.update(r.get("findings") or {})
        b = by_facet.setdefault(r["facet"], dict(cases=0, comparisons=0, labels={}, hashes=set(),
                                                 samples=[], not_run_time_budget=0, wall=0.0))
        b["cases"] += r["evaluations"]
        b["comparisons"] += r["inner"]
        b["hashes"].update(r["hashes"])
        b["samples"] += r["samples"]
        b["not_run_time_budget"] += r["skipped_budget"]
        b["wall"] = max(b["wall"], round(r["wall"], 1))
        for k, v in r["labels"].items():
            b["labels"][k] = b["labels"].get(k, 0) + v

    # a finding that is not on the list is a violation like any other
    unknown = {k: v for k, v in findings.items() if k not in known}
    for k, v in findings.items():
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")

    dest = os.environ.get("VF_OUT", VERIF)  # elsewhere when measuring sensitivity on scratch copies
    rdir = os.path.join(dest, "replays")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    seen_facets = set()
    x64 = {f["name"]: f["x64"] for f in facets}
    for r in violations:
        if r["facet"] in seen_facets:
            continue
        seen_facets.add(r["facet"])
        p = os.path.join(rdir, f"{prop}_{r['facet']}_{seed}.json")
        with open(p, "w") as fh:
            json.dump(dict(property=prop, facet=r["facet"], x64=x64[r["facet"]], seed=seed, tier=tier,
                           case=r["violation"]["case"], message=r["violation"]["message"]), fh, indent=1)
        lines.append((p, f"{r['facet']}: {r['violation']['message']}"))
    for k, v in unknown.items():
        p = os.path.join(rdir, f"{prop}_finding_{k}.json")
        json.dump(dict(property=prop, finding=k, message=v), open(p, "w"))
        lines.append((p, v))

    rules = {f["name"]: f["rule"] for f in facets}
    samples = []
    for name, b in by_facet.items():
        for s in b["samples"][:2]:
            samples.append(dict(facet=name, case=s))
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=sum(b["cases"] for b in by_facet.values()),
            distinct_nontrivial=sum(len(b["hashes"]) for b in by_facet.values()),
            rule="Cases are generated by Hypothesis per facet; distinct by content. "
            + " | ".join(f"{n}: {rules[n]}" for n in by_facet),
            samples=samples[:12],
            elementary_comparisons=sum(b["comparisons"] for b in by_facet.values()),
            facets={n: dict(cases=b["cases"], nontrivial=len(b["hashes"]), comparisons=b["comparisons"],
                            classes=b["labels"], not_run_time_budget=b["not_run_time_budget"],
                            wall_s=b["wall"]) for n, b in by_facet.items()},
        ),
        assumptions=table["assumptions"],
        wall_s=round(time.time() - t0, 2),
        violations=len(lines),
    )
    os.makedirs(os.path.join(dest, "evidence"), exist_ok=True)
    if not a.facet:
        with open(os.path.join(dest, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    for n, b in by_facet.items():
        print(f"[{prop}/{n}] cases={b['cases']} nontrivial={len(b['hashes'])} comparisons={b['comparisons']}"
              f" wall={b['wall']}s classes={json.dumps(b['labels'], sort_keys=True)}")
    for r in errors:
        print(f"ERROR property={prop} facet={r['facet']} shard={r['shard']}:\n{r['error']}")
    for p, msg in lines:
        print(f"  {msg}")
        print(f"VIOLATION property={prop} replay={p}")
    print(f"[{prop}] wall {time.time() - t0:.1f}s")
    if lines:
        sys.exit(1)
    if errors:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
