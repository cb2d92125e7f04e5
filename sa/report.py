"""Obligations, violations, known findings and evidence of one check run."""
from __future__ import annotations

import json
import os
import pickle
import sys
import tempfile
import time
import traceback

from .interp import State  # noqa: F401
from .values import Dead, Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")


UNIT_SECONDS = float(os.environ.get("SA_UNIT_SECONDS", "150"))


class Report:
    def __init__(self, pid, tier, explanation, assumptions=()):
        self.pid, self.tier = pid, tier
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.obligations = []          # (key, ok)
        self.violations = []           # (key, message, where)
        self.errors = []
        self.counts = {}
        self.samples = []
        self.minimum = []              # (what, found, needed)
        self.prefix = ""

    # ------------------------------------------------------------ recording
    def ob(self, key, ok, msg="", where=""):
        key = self.prefix + key
        self.obligations.append((key, bool(ok)))
        if not ok:
            self.violations.append((key, msg, where))
        return bool(ok)

    def error(self, what):
        self.errors.append(self.prefix + what)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 12:
            self.samples.append(str(text)[:600])

    def need(self, what, found, needed):
        """anchors: fewer instances than confirmed by hand is an error, never a silent pass"""
        self.minimum.append((what, found, needed))
        if found < needed:
            self.error(f"only {found} {what} found, {needed} expected: the rule lost its anchor")

    def unit(self, key, world=None, dead_is=None):
        return _Unit(self, key, world, dead_is)

    # ------------------------------------------------------------ processes
    def parallel(self, jobs, limit=None):
        """run jobs [(function, arguments)] -- function(report, *arguments) -> world -- in forked
        processes and merge what they record, in order; -> [analysis statistics]"""
        limit = limit or int(os.environ.get("SA_JOBS", "0")) or min(8, os.cpu_count() or 1)
        todo = list(enumerate(jobs))
        running, done = {}, {}
        while todo or running:
            while todo and len(running) < limit:
                n, (fn, args) = todo.pop(0)
                fd, path = tempfile.mkstemp(prefix="sa-")
                os.close(fd)
                sys.stdout.flush()
                pid = os.fork()
                if not pid:
                    self._child(fn, args, path)
                running[pid] = (n, path)
            pid, status = os.wait()
            if pid not in running:
                continue
            n, path = running.pop(pid)
            try:
                with open(path, "rb") as fh:
                    done[n] = pickle.load(fh)
            except Exception:
                done[n] = ("ended", f"analysis process ended with status {status}")
            os.unlink(path)
        stats = []
        for n in range(len(jobs)):
            kind, data = done[n]
            if kind == "import":
                raise ImportFailure(data)
            if kind == "ended":
                self.error(data)
                continue
            self.obligations += data["obligations"]
            self.violations += data["violations"]
            self.errors += data["errors"]
            self.minimum += data["minimum"]
            for k, v in data["counts"].items():
                self.count(k, v)
            for s in data["samples"]:
                self.sample(s)
            stats.append(data["stats"])
        return stats

    def _child(self, fn, args, path):
        sub = Report(self.pid, self.tier, "")
        try:
            w = fn(sub, *args)
            st = {k: (v if isinstance(v, int) else {x if isinstance(x, str) else repr(x) for x in v})
                  for k, v in (w.itp.stats.items() if w is not None else ())
                  if isinstance(v, (int, set, frozenset))}
            out = ("ok", {"obligations": sub.obligations,
                          "violations": [(k, str(m), str(w_)) for k, m, w_ in sub.violations],
                          "errors": sub.errors, "minimum": sub.minimum, "counts": sub.counts,
                          "samples": sub.samples, "stats": st})
        except ImportFailure as e:
            out = ("import", str(e))
        except BaseException as e:          # noqa: BLE001
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            out = ("ended", f"{type(e).__name__}: {e}")
        try:
            with open(path, "wb") as fh:
                pickle.dump(out, fh)
            sys.stdout.flush()
        finally:
            os._exit(0)

    # ------------------------------------------------------------ closing
    def finish(self, worlds=()):
        os.makedirs(EVID, exist_ok=True)
        known = load_known().get(self.pid, {})
        listed, new = [], []
        for key, msg, where in self.violations:
            (listed if key in known else new).append((key, msg, where))
        for key, msg, where in listed:
            print(f"KNOWN-FINDING: property={self.pid} {key}: {known[key]}")
        replay = os.path.join(EVID, f"{self.pid}.violation.json")
        if new:
            with open(replay, "w") as fh:
                json.dump({"property": self.pid, "tier": self.tier,
                           "rerun": f"cd /verif && python3 -m sa.run {self.pid} --tier {self.tier}",
                           "violations": [{"rule": k, "message": m, "construct": w} for k, m, w in new]},
                          fh, indent=1)
        elif os.path.exists(replay):
            os.remove(replay)
        cov = {"explanation": self.explanation,
               "obligations": len(self.obligations),
               "discharged": sum(1 for _, ok in self.obligations if ok),
               "distinct_obligations": len({k for k, _ in self.obligations}),
               "anchors": {w: f for w, f, n in self.minimum},
               "samples": self.samples or [k for k, _ in self.obligations[:8]]}
        cov.update(self.counts)
        stats = {}
        functions = set()
        for w in worlds:
            for k, v in (w if isinstance(w, dict) else w.itp.stats).items():
                if isinstance(v, int):
                    stats[k] = stats.get(k, 0) + v
                elif isinstance(v, (set, frozenset)):
                    functions |= {f for f in v if isinstance(f, str)}
                    others = sum(1 for f in v if not isinstance(f, str))
                    if others:
                        stats[k] = stats.get(k, 0) + others
        if stats:
            cov["analysis"] = stats
        if functions:
            cov["functions_analysed"] = len(functions)
            cov["functions"] = sorted(functions)
        if listed:
            cov["known_findings"] = [k for k, _, _ in listed]
        if self.errors:
            cov["errors"] = self.errors
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        with open(os.path.join(EVID, f"{self.pid}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for e in self.errors:
            print("ERROR", e)
        if new:
            for k, m, w in new[:20]:
                print(f"  {k}: {m}" + (f"  [{w}]" if w else ""))
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        if self.errors:
            return 2
        print(f"OK property={self.pid} obligations={len(self.obligations)} "
              f"tier={self.tier} {time.time() - self.t0:.1f}s")
        return 0


class ImportFailure(Exception):
    """the package cannot be imported"""


class _Unit:
    """one analysed instance: an unsupported construct is an analysis error of this
    instance only; a path set that never returns is handed to `dead_is`"""

    def __init__(self, rep, key, world, dead_is):
        self.rep, self.key, self.world, self.dead_is = rep, key, world, dead_is

    def __enter__(self):
        if self.world is not None:
            self.world.itp.deadline = time.time() + UNIT_SECONDS
        return self

    def __exit__(self, t, e, tb):
        if t is None:
            return False
        if os.environ.get("SA_DEBUG"):
            traceback.print_exception(t, e, tb)
        if issubclass(t, Unsupported):
            self.rep.error(f"{self.key}: unsupported construct: {e}")
            return True
        if issubclass(t, Dead):
            msg = "every path raises"
            where = ""
            if self.world is not None and self.world.itp.sinks and self.world.itp.sinks[-1]:
                _, exc, where = self.world.itp.sinks[-1][-1]
                msg = f"always raises {getattr(exc, 'name', exc)} {getattr(exc, 'args', '')}"
            if self.dead_is:
                self.rep.ob(f"{self.key}/{self.dead_is}", False, msg, str(where))
            else:
                self.rep.error(f"{self.key}: {msg} at {where}")
            return True
        if issubclass(t, (RecursionError, AssertionError, KeyError, AttributeError, TypeError, ValueError,
                          IndexError, ZeroDivisionError, NotImplementedError)):
            last = traceback.extract_tb(tb)[-1]
            self.rep.error(f"{self.key}: {t.__name__}: {e} ({os.path.basename(last.filename)}:{last.lineno})")
            return True
        return False


def load_known():
    """`finding: property=<id> key=<rule/construct> <what fails>`; `fixed:` lines suppress nothing"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].split(None, 2)
                pid = parts[0].split("=", 1)[1]
                key = parts[1].split("=", 1)[1]
                out.setdefault(pid, {})[key] = parts[2] if len(parts) > 2 else ""
    return out
