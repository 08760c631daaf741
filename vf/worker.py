"""Runs a list of (facet, shard) jobs of one property in this process; one JSON result per job."""
import dataclasses
import importlib
import json
import sys
import warnings

from vf import boot

boot.ensure_deps()
warnings.filterwarnings("ignore")


def main():
    prop, facet_name, shard, seed, tier, out = sys.argv[1:7]
    from vf.core import run_shard

    mod = importlib.import_module(f"vf.props.{prop.lower()}")
    facet = {f.name: f for f in mod.FACETS}[facet_name]
    res = run_shard(prop, facet, int(shard), int(seed), tier)
    with open(out, "w") as f:
        json.dump(dataclasses.asdict(res), f, default=str)


if __name__ == "__main__":
    main()
