"""Writes MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "runtime monitor: values of the running library against the Friedmann equation",
    "C02": "runtime monitor: distances against independent quadrature with an interpolation error bound",
    "C03": "runtime monitor: curved distances and their Omega_k derivative against closed forms",
    "C04": "runtime monitor: growth against an adaptive high-order ODE solution",
    "C05": "runtime monitor: gamma growth against quadrature, with interleaved objects",
    "C06": "runtime monitor: transfer function against an independent transcription",
    "C07": "runtime monitor: shape, growth and rms of the returned spectrum against references",
    "C08": "runtime monitor: non-linear power against an independent halofit",
    "C09": "runtime monitor: distributions against densities and norms computed apart",
    "C10": "runtime monitor: kernels against their formulae with fine quadrature",
    "C11": "runtime monitor: spectra against Limber integrals put together independently",
    "C12": "runtime monitor: noise and covariance elements against loops over the Knox formula",
    "C13": "runtime monitor: sparse results against dense numpy",
    "C14": "runtime monitor: likelihoods against numpy",
    "C15": "runtime monitor: forward and reverse derivatives against differences of the same code",
    "C16": "runtime monitor: every observable of objects before and after each transformation",
    "C17": "runtime monitor over random histories and thread interleavings, with a tracer leak scanner",
    "C18": "runtime monitor: splines and their calculus against scipy",
    "C19": "runtime monitor: quadrature and ODE steps against the methods' definitions and exact values",
    "C20": "runtime monitor: interpolation against bracketing segments",
    "C21": "runtime sanitizers (finiteness, jax checkify index checks) and a float32/float64 differential monitor",
    "C22": "runtime monitor: parameters in and out",
    "C23": "runtime monitor: biases against their formulae",
}
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
note = ("Holds on every execution observed (counts, distinct cases and error/tolerance ratios in the evidence file); inputs are random and "
        "edge-biased, not enumerated. Trusts numpy, scipy, jax and the reference of rv/oracle.py; ends inconclusive (exit 2) if a rule was "
        "observed less often than rv/floors.json asks.")
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import jax, numpy, scipy' && python3 rv/run.py list",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 rv/run.py check %s quick" % p["id"],
        "thorough_cmd": "python3 rv/run.py check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH[p["id"]],
        "level": "exploration",
        "level_note": note,
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks: the monitors observe the public interface of the unmodified library, imported from /repo by worker processes.",
}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
