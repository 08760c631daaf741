"""Regenerates MANIFEST.json: a property is claimed when its check module exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing; differential against a numpy Metropolis-Hastings model via decision-threshold probing", "Exact per-update comparison of proposal and log acceptance ratio, plus distribution tests of the draws and of stationarity; holds for the generated targets, step sizes and metrics only."),
 "C02": ("property-based testing; invariant over generated updates and chains on targets with walls", "Every generated update is judged; generated inputs only."),
 "C03": ("property-based testing; differential replay of the independence sampler in numpy", "Accept decisions are replayed exactly from probed uniforms; generated flows and targets only."),
 "C04": ("stateful model-based testing against a reference recorder", "Whole buffers compared after every generated call history."),
 "C05": ("metamorphic property-based testing (perturb one chain, change batching or verbosity)", "Exact equality of unperturbed chains for generated configurations."),
 "C06": ("property-based testing; round trip and automatic-differentiation Jacobian oracle", "Round trips and Jacobians at generated parameters and points, to numerical tolerance."),
 "C07": ("property-based testing; Jacobian identity, quadrature and distribution tests of samples", "Density identity to numerical tolerance; sampling checked statistically."),
 "C08": ("property-based testing; differential against scipy/numpy densities, distribution tests", "Densities to rounding; sampling statistically."),
 "C09": ("property-based testing with scripted-loss and one-hot instrument models, differential training loop", "Best-epoch and batch bookkeeping exactly decoded for generated histories."),
 "C10": ("stateful model-based testing with a spy model", "Rows passed to training are decoded exactly; uniform eligibility statistically."),
 "C11": ("stateful property-based testing; conservation invariant over histories and exact swap-probability probing", "Conservation exact; swap probability exact for two rungs, invariance statistical for more."),
 "C12": ("property-based testing with instrument kernels, differential against a numpy tempered model", "Rung densities decoded exactly from deterministic kernels; invariance statistically."),
 "C13": ("model-based testing over generated strategy orders", "Exact comparison of the executed history with the model."),
 "C14": ("property-based testing over bundle configurations with snapshots; invariants over the run history", "Every record of every generated run is judged; few configurations per run because each compiles a sampler."),
 "C15": ("metamorphic property-based testing (same key / different key, repeated runs)", "Bitwise equality of repeated runs."),
 "C16": ("property-based testing; differential against a numpy projected Adam", "Numerical agreement without noise, invariants with noise."),
 "C17": ("property-based testing; closed-form and independent ODE references, quadrature, differential training", "Numerical tolerance of the fixed-step integrator, at generated networks."),
 "C18": ("round-trip property-based testing", "Exact equality after save and load for generated contents."),
 "C20": ("property-based testing of whole runs; distribution tests against exact draws, perfect-flow and instrument oracles", "Settings decoded exactly; invariance and convergence statistically, on Gaussian mixtures."),
 "C19": ("stateful model-based testing against numpy/dict models", "Exact equality with the models over generated histories."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "vf", "props", p.lower() + ".py")):
        t, note = T[p]
        checks.append(dict(property=p, quick_cmd=f"./check.sh {p} quick", thorough_cmd=f"./check.sh {p} thorough",
                           technique=t, level="exploration", level_note=note))
    else:
        na.append(dict(property=p, reason="no check built yet; not claimed"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: every check drives the public API. Fixes are listed in known_findings.jsonl and DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
