"""Monitor: records what the oracles saw while the real code ran, and decides.

A workload (one "task") drives jax_cosmo through its public interface only and
reports every comparison to a Monitor.  A Monitor never raises: it counts the
observation under the name of the rule and keeps a witness if the rule broke.
"""
import hashlib
import os
import sys
import traceback
import zlib

import numpy as np

REPO = os.path.realpath(os.environ.get("RV_REPO", "/repo"))
MAX_WITNESS = 12


class LibraryRaised(Exception):
    """The code under test raised where the property says it returns a value."""


def _short(v, depth=0):
    """JSON-able, bounded description of a value for witnesses and samples."""
    if isinstance(v, (str, int, bool, type(None))):
        return v
    if isinstance(v, (float, np.floating)):
        return float(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, dict):
        return {str(k): _short(x, depth + 1) for k, x in list(v.items())[:30]}
    if isinstance(v, (list, tuple)):
        return [_short(x, depth + 1) for x in list(v)[:12]]
    try:
        a = np.asarray(v)
        if a.dtype == object:
            return repr(v)[:200]
        if a.size <= 12:
            return a.tolist()
        return {"shape": list(a.shape), "head": a.ravel()[:6].tolist()}
    except Exception:
        return repr(v)[:200]


def digest(*parts):
    return hashlib.sha1(repr([_short(p) for p in parts]).encode()).hexdigest()[:16]


class Monitor:
    def __init__(self, prop, task, seed, verbose=False):
        self.prop, self.task, self.verbose = prop, task, verbose
        self.x64 = bool(task.get("x64", True))
        self.rng = np.random.default_rng(
            [seed, zlib.crc32(prop.encode()), zlib.crc32(task["kind"].encode()), task["i"]]
        )
        self.rules = {}
        self.states = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.cases = 0
        self.context = {}

    # -- bookkeeping
    def case(self, **ctx):
        """Start of one generated case: its full description goes in witnesses."""
        self.cases += 1
        self.context = {k: _short(v) for k, v in ctx.items()}
        self.states.add(digest(self.task["kind"], self.x64, ctx))
        if len(self.samples) < 1:
            self.samples.append({"kind": self.task["kind"], "x64": self.x64, **self.context})

    def _rule(self, rule):
        return self.rules.setdefault(rule, {"n": 0, "bad": 0, "worst": 0.0})

    def observe(self, rule, ok, **witness):
        r = self._rule(rule)
        r["n"] += 1
        if not bool(ok):
            r["bad"] += 1
            if len(self.violations) < MAX_WITNESS:
                w = {
                    "rule": rule,
                    "case": self.context,
                    "witness": {k: _short(v) for k, v in witness.items()},
                }
                self.violations.append(w)
                if self.verbose:
                    print("  broke:", w, flush=True)
        return bool(ok)

    def known_finding(self, finding, what):
        self.known.append({"id": finding, "what": what})

    # -- oracles' comparisons
    def close(self, rule, got, want, rtol=0.0, atol=0.0, shape=True, **witness):
        """|got - want| <= atol + rtol |want| elementwise, finite, same shape."""
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            return self.observe(rule, False, problem="not an array: %r" % (e,), **witness)
        if shape is True and g.shape != w.shape:
            return self.observe(
                rule, False, problem="shape", got=g.shape, want=w.shape, **witness
            )
        if shape is None:  # up to size-1 axes
            if g.size != w.size:
                return self.observe(
                    rule, False, problem="size", got=g.shape, want=w.shape, **witness
                )
            g, w = g.ravel(), w.ravel()
        tol = np.broadcast_to(atol + rtol * np.abs(w), w.shape)
        err = np.abs(g - w)
        bad = ~(err <= tol)  # nan counts as bad
        r = self._rule(rule)
        with np.errstate(all="ignore"):
            ratio = np.where(tol > 0, err / np.where(tol > 0, tol, 1), np.where(err > 0, np.inf, 0))
        if ratio.size and np.isfinite(ratio).any():
            r["worst"] = max(r["worst"], float(ratio[np.isfinite(ratio)].max()))
        if bad.any():
            i = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, ratio)), err.shape)
            return self.observe(
                rule, False, at=[int(t) for t in i], got=g[i], want=w[i],
                tol=tol[i], n_bad=int(bad.sum()), of=int(bad.size), **witness
            )
        return self.observe(rule, True)

    def finite(self, rule, got, **witness):
        try:
            g = np.asarray(got)
            ok = np.isfinite(g).all()
        except Exception as e:
            return self.observe(rule, False, problem=repr(e)[:200], **witness)
        return self.observe(rule, ok, n_bad=int((~np.isfinite(g)).sum()), of=int(g.size), **witness)

    def raises(self, rule, exc, thunk, **witness):
        try:
            r = thunk()
        except exc:
            return self.observe(rule, True)
        except Exception as e:
            return self.observe(rule, False, raised=repr(e)[:300], expected=repr(exc), **witness)
        return self.observe(rule, False, returned=r, expected=repr(exc), **witness)

    # -- running the code under test
    def call(self, rule, thunk, **witness):
        """Runs the code under test; raising is a violation of the rule."""
        r = self._rule(rule)
        try:
            out = thunk()
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = [f"{f.filename}:{f.lineno} {f.name}" for f in tb if f.filename.startswith(REPO)]
            self.observe(
                rule, False, raised="%s: %s" % (type(e).__name__, str(e)[:300]),
                where=where[-3:], **witness
            )
            raise LibraryRaised(rule) from e
        self.observe(rule, True)
        return out

    def result(self):
        return {
            "task": self.task,
            "rules": self.rules,
            "states": sorted(self.states),
            "samples": self.samples,
            "violations": self.violations,
            "known": self.known,
            "cases": self.cases,
        }
