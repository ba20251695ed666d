"""Check driver: obligations, verdicts, known findings, evidence."""
from __future__ import annotations

import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")


class AnchorLost(Exception):
    pass


class Enough(BaseException):
    """violations have been found and more of the same would only cost time"""


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obl = {}        # key -> [status, message, location]
        self.order = []
        self.stats = {}
        self.samples = {}
        self.rules = []
        self._it = None
        self.t0 = time.time()
        self.nbad = 0
        self.fns, self.mods, self.calls = set(), set(), 0   # for checks that do not use the interpreter
        self.known = {k for p, k in load_known() if p == pid}

    @property
    def thorough(self):
        return self.tier == "thorough"

    @property
    def it(self):
        if self._it is None:
            from .interp import Interp
            self._it = Interp(REPO)
            if self.thorough:
                self._it.BUDGET, self._it.TOTAL = 200, 820
        return self._it

    def fresh(self):
        from .interp import Interp
        self._it = Interp(REPO)
        return self._it

    def need(self, v, what):
        if v is None:
            raise AnchorLost(what)
        return v

    def lookup(self, dotted):
        return self.need(self.it.lookup(dotted), dotted)

    # obligations ---------------------------------------------------------
    def _set(self, key, status, msg, loc):
        cur = self.obl.get(key)
        rank = {"ok": 0, "unknown": 1, "bad": 2}
        if cur is None:
            self.obl[key] = [status, msg, loc]
            self.order.append(key)
        elif rank[status] > rank[cur[0]]:
            self.obl[key] = [status, msg, loc]
        if status == "bad" and key not in self.known:
            self.nbad += 1
        if self.nbad and not self.thorough and (self.nbad >= 80 or time.time() - self.t0 > 240):
            raise Enough()

    def ok(self, key, sample=None):
        self._set(key, "ok", "", None)
        if sample is not None and len(self.samples) < 400:
            self.samples.setdefault(key, str(sample)[:300])

    def bad(self, key, msg, loc=None):
        self._set(key, "bad", msg, loc)

    def unknown(self, key, why, loc=None):
        self._set(key, "unknown", why, loc)

    def check(self, key, cond, msg, loc=None, sample=None):
        if cond is None:
            self.unknown(key, msg, loc)
        elif cond:
            self.ok(key, sample)
        else:
            self.bad(key, msg, loc)
        return cond

    def rule(self, text):
        self.rules.append(text)

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def where(self, fnval):
        """source location of a function value"""
        from .values import Fn, ClassV, Bound, Wrapper
        while isinstance(fnval, (Bound, Wrapper)):
            fnval = fnval.fn
        if isinstance(fnval, (Fn, ClassV)) and fnval.node is not None:
            src = self.it.sources.get(fnval.module)
            f = os.path.relpath(src[0], REPO) if src else fnval.module
            return "%s:%d %s" % (f, fnval.node.lineno, fnval.qual.split(":")[-1])
        return str(fnval)


def fmt_loc(loc):
    if loc is None:
        return ""
    if isinstance(loc, tuple):
        return "%s:%s in %s" % (loc[0].replace(".", "/") + ".py", loc[1], str(loc[2]).split(":")[-1])
    return str(loc)


def load_known():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: "):
                body = l[7:]
                head, _, text = body.partition(" :: ")
                pid, _, key = head.partition(" key=")
                out[(pid.split("=", 1)[1], key.strip())] = text
    return out


def run_check(pid, tier="quick", seed=1):
    import importlib
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module("sa.checks." + pid.lower())
    err = None
    try:
        mod.run(ctx)
    except Enough:
        ctx.stat("stopped after the first violations")
    except AnchorLost as e:
        err = "anchor not found: %s" % e
    except Exception as e:  # noqa: BLE001
        err = "analysis failed: %s: %s" % (type(e).__name__, e)
        traceback.print_exc()
    known = load_known()
    nbad = []
    known_hit = []
    for k in ctx.order:
        st, msg, loc = ctx.obl[k]
        if st == "bad":
            if (pid, k) in known:
                known_hit.append(k)
            else:
                nbad.append(k)
    cnt = {s: sum(1 for k in ctx.order if ctx.obl[k][0] == s) for s in ("ok", "bad", "unknown")}
    floor = getattr(mod, "FLOOR", 1)
    if err is None and cnt["ok"] + cnt["bad"] < floor:
        err = "only %d obligations decided, the floor is %d" % (cnt["ok"] + cnt["bad"], floor)
    outdir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(outdir, exist_ok=True)
    rep = os.path.join(outdir, "%s.report.txt" % pid)
    with open(rep, "w") as f:
        f.write("property %s\nrules:\n" % pid)
        for r in ctx.rules:
            f.write("  - %s\n" % r)
        for k in ctx.order:
            st, msg, loc = ctx.obl[k]
            f.write("%-8s %s%s%s\n" % (st, k, (" :: " + msg) if msg else "", (" @ " + fmt_loc(loc)) if loc else ""))
            if st == "ok" and k in ctx.samples:
                f.write("           %s\n" % ctx.samples[k])
        if err:
            f.write("ERROR %s\n" % err)
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known[(pid, k)]))
    for k in nbad:
        st, msg, loc = ctx.obl[k]
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        print("  rule instance %s: %s%s" % (k, msg, (" [at %s]" % fmt_loc(loc)) if loc else ""))
    unk = [k for k in ctx.order if ctx.obl[k][0] == "unknown"]
    it = ctx._it
    cov = {
        "obligations": len(ctx.order),
        "discharged": cnt["ok"],
        "violated": cnt["bad"],
        "undecided": len(unk),
        "undecided_keys": unk[:40],
        "functions_analysed": len(it.visited_fns) if it else len(ctx.fns),
        "functions": sorted(it.visited_fns)[:1500] if it else sorted(ctx.fns)[:1500],
        "call_sites_evaluated": it.call_sites if it else ctx.calls,
        "modules_parsed": sorted(it.sources) if it else sorted(ctx.mods),
        "rules": ctx.rules,
        "instances": {k: ctx.samples.get(k, ctx.obl[k][0]) for k in ctx.order[:60]},
        "stats": ctx.stats,
        "known_findings": known_hit,
        "explanation": "static analysis of the current source text: %d rule instances decided (%d hold, %d known findings, %d violated, %d undecided); the rules and the analysed functions are listed" % (
            len(ctx.order), cnt["ok"], len(known_hit), len(nbad), len(unk)),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.time() - t0, 3), "violations": len(nbad)}
    if err:
        ev["coverage"]["error"] = err
    json.dump(ev, open(os.path.join(outdir, pid + ".json"), "w"), indent=1, default=str)
    print("%s tier=%s: %d obligations, %d hold, %d known, %d violated, %d undecided, %d functions analysed, %.1fs" % (
        pid, tier, len(ctx.order), cnt["ok"], len(known_hit), len(nbad), len(unk), len(it.visited_fns) if it else len(ctx.fns), time.time() - t0))
    if nbad:
        return 1
    if err:
        print("ERROR %s: %s" % (pid, err))
        return 2
    return 0


def main(argv):
    import threading
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    res = []
    threading.stack_size(1024 * 1024 * 1024)
    th = threading.Thread(target=lambda: res.append(run_check(pid, tier, seed)))
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
