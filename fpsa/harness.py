"""Check harness: findings, known findings, evidence, command line."""
import importlib
import json
import os
import re
import signal
import sys
import time
import traceback
import warnings

from .interp import Interp, Vanished

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FPSA_REPO", "/repo")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Timeout(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.findings = {}
        self.obl = {}
        self.undec = {}
        self.scen_ok, self.scen_bad = [], []
        self.functions, self.stmts, self.calls, self.events = set(), 0, 0, 0
        self.external = {}
        self.its = []
        self.notes = []

    # -- rules ------------------------------------------------------------
    def ok(self, rule, what, n=1):
        self.obl.setdefault(rule, {})
        self.obl[rule][str(what)] = "discharged"

    def alarm(self, rule, construct, msg):
        key = "%s@%s" % (rule, construct)
        self.findings.setdefault(key, msg)
        self.obl.setdefault(rule, {})
        self.obl[rule][construct] = "VIOLATED"

    def undecided(self, rule, what, why=""):
        self.undec.setdefault("%s: %s" % (rule, what), str(why)[:300])
        self.obl.setdefault(rule, {})
        self.obl[rule].setdefault(str(what), "undecided")

    def note(self, s):
        self.notes.append(s)

    # -- scenarios ---------------------------------------------------------
    def interp(self, **kw):
        it = Interp(repo=REPO, **kw)
        it.strict = self.id not in ("A01", "A05", "D05", "N01")      # effect analyses: one unrolling shows every construct
        self.its.append(it)
        return it

    def scenario(self, name, fn, *a, limit=120, **k):
        """Analyse one abstract entry point; an internal failure leaves it undecided."""
        def onalarm(s, f):
            raise Timeout()
        if self.tier == "quick":            # a check has 900 s in all
            limit = min(limit, int(650 - (time.time() - self.t0)))
            if limit <= 0:
                self.scen_bad.append(name)
                self.undecided("scenario", name, "time limit of the whole check")
                return None
        old = signal.signal(signal.SIGALRM, onalarm)
        signal.alarm(limit)
        try:
            r = fn(*a, **k)
            self.scen_ok.append(name)
            return r
        except Vanished:
            raise
        except Timeout:
            self.scen_bad.append(name)
            self.undecided("scenario", name, "time limit of %d s" % limit)
        except RecursionError:
            self.scen_bad.append(name)
            self.undecided("scenario", name, "recursion limit")
        except Exception as e:
            self.scen_bad.append(name)
            tb = traceback.extract_tb(e.__traceback__)
            self.undecided("scenario", name, "%s: %s at %s" % (type(e).__name__, e, tb[-1] if tb else "?"))
            if os.environ.get("FPSA_DEBUG"):
                traceback.print_exc(limit=-3)
        finally:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        return None

    def collect(self):
        for it in self.its:
            self.functions |= it.stats["functions"]
            self.stmts += it.stats["stmts"]
            self.calls += it.stats["calls"]
            self.events += len(it.events)
            for k, v in it.stats["external"].items():
                self.external[k] = self.external.get(k, 0) + v


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf8"):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


def main(argv):
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(20000)
    pid = argv[0]
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module("fpsa.checks.%s" % pid.lower())
    err = None
    try:
        mod.run(ctx)
    except Vanished as e:
        err = "anchor vanished: %s" % e
    ctx.collect()
    known, fixed = load_known()
    kn = known.get(pid, {})
    new = {k: v for k, v in ctx.findings.items() if k not in kn}
    old = {k: v for k, v in ctx.findings.items() if k in kn}
    if not err and not new and not ctx.scen_ok and not any(x == "discharged" for v in ctx.obl.values() for x in v.values()):
        err = "no scenario could be analysed: %s" % "; ".join("%s (%s)" % x for x in ctx.undec.items())
    nobl = sum(len(v) for v in ctx.obl.values())
    ndis = sum(1 for v in ctx.obl.values() for x in v.values() if x == "discharged")
    level = getattr(mod, "LEVEL", "other")
    cov = {
        "explanation": mod.__doc__.strip() if mod.__doc__ else "",
        "rule": getattr(mod, "RULE", ""),
        "obligations": nobl,
        "discharged": ndis,
        "undecided": ctx.undec,
        "scenarios_analysed": ctx.scen_ok,
        "functions_analysed": sorted(ctx.functions),
        "statements_interpreted": ctx.stmts,
        "calls_resolved": ctx.calls,
        "effect_events": ctx.events,
        "external_calls_modelled_as_uninterpreted": ctx.external,
        "obligations_by_rule": {k: {"total": len(v), "discharged": sum(1 for x in v.values() if x == "discharged"),
                                    "samples": sorted(v)[:8]} for k, v in ctx.obl.items()},
        "notes": ctx.notes,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": round(time.time() - t0, 3),
          "violations": [{"key": k, "what": v} for k, v in sorted(new.items())],
          "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w", encoding="utf8") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %s" % (pid, getattr(mod, "RULE", "")))
    print("  scenarios analysed: %d (undecided: %d); functions: %d; statements: %d; calls: %d; effects: %d" % (
        len(ctx.scen_ok), len(ctx.scen_bad), len(ctx.functions), ctx.stmts, ctx.calls, ctx.events))
    print("  obligations: %d, discharged: %d, undecided: %d" % (nobl, ndis, len(ctx.undec)))
    for k, v in ctx.undec.items():
        print("  undecided %s -- %s" % (k, v))
    for k, v in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, kn[k]))
    if err:
        print("ERROR: %s" % err)
        return 2
    if new:
        rep = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rep, "w", encoding="utf8") as f:
            for k, v in sorted(new.items()):
                f.write("%s\n    %s\n" % (k, v))
        for k, v in sorted(new.items()):
            print("  %s\n      %s" % (k, v))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    return 0
