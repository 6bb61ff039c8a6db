"""SMT back end: z3 in process, with an incremental assertion trail; optional cvc5 cross check."""
import os
import subprocess
import tempfile
import time

import z3

z3.set_param("smt.random_seed", 1)


class Stats:
    def __init__(self):
        self.queries = 0
        self.cached = 0
        self.time = 0.0
        self.unknown = 0
        self.cvc5_ok = 0
        self.cvc5_unknown = 0
        self.cvc5_disagree = 0
        self.cvc5_time = 0.0


class Smt:
    def __init__(self, timeout_ms=8000):
        self.s = z3.Solver()
        self.trail = []
        self.pushed = 0
        self.mods = [()]   # per level of the trail: models that satisfy it up to there
        self.timeout = timeout_ms
        self.s.set("timeout", timeout_ms)
        self.stats = Stats()
        self.cvc5 = os.environ.get("VC_CVC5") == "1"
        self.model = None

    def _sync(self, pc):
        """make pc the trail; the solver gets the terms when it is asked"""
        n = 0
        m = min(len(pc), len(self.trail))
        while n < m and self.trail[n] is pc[n]:
            n += 1
        if n < len(self.trail):
            if self.pushed > n:
                self.s.pop(self.pushed - n)
                self.pushed = n
            del self.trail[n:]
            del self.mods[n + 1:]
        for t in pc[n:]:
            self.trail.append(t)
            self.mods.append(())

    def _push(self):
        for t in self.trail[self.pushed:]:
            self.s.push()
            self.s.add(t)
        self.pushed = len(self.trail)

    def _by_model(self, extra):
        """a model that is already known and satisfies the trail and extra"""
        n = len(self.trail)
        tried = 0
        for lv in range(n, max(-1, n - 12), -1):
            for m in self.mods[lv]:
                tried += 1
                if tried > 4:
                    return None
                good = True
                for t in self.trail[lv:]:
                    if not z3.is_true(m.eval(t, model_completion=True)):
                        good = False
                        break
                if not good:
                    continue
                if lv < n:
                    self.mods[n] = (m,) + self.mods[n][:2]
                for t in extra:
                    if not z3.is_true(m.eval(t, model_completion=True)):
                        good = False
                        break
                if good:
                    return m
        return None

    def check(self, pc, extra=(), timeout=None):
        """sat / unsat / unknown of pc and extra"""
        t0 = time.time()
        self._sync(pc)
        m = self._by_model(extra)
        if m is not None:
            self.model = m
            self.stats.cached += 1
            self.stats.time += time.time() - t0
            return z3.sat
        self._push()
        if timeout:
            self.s.set("timeout", timeout)
        self.s.push()
        try:
            for e in extra:
                self.s.add(e)
            r = self.s.check()
            self.model = self.s.model() if r == z3.sat else None
        finally:
            self.s.pop()
            if timeout:
                self.s.set("timeout", self.timeout)
        if r == z3.sat:
            n = len(self.trail)
            self.mods[n] = (self.model,) + self.mods[n][:2]
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def feasible(self, pc, cond=None):
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_true(c):
                cond = None
            elif z3.is_false(c):
                return False
        r = self.check(pc, () if cond is None else (cond,), timeout=3000)
        return r != z3.unsat

    def prove(self, pc, goal, timeout=None):
        """'proved', 'failed' (self.model set) or 'unknown'"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved"
        r = self.check(pc, (z3.Not(goal),), timeout)
        if r == z3.unsat:
            if self.cvc5:
                self._cross(pc, goal)
            return "proved"
        return "failed" if r == z3.sat else "unknown"

    def _cross(self, pc, goal):
        s = z3.Solver()
        for t in pc:
            s.add(t)
        s.add(z3.Not(goal))
        t0 = time.time()
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write("(set-logic ALL)\n" + s.to_smt2())
            name = f.name
        try:
            p = subprocess.run(["cvc5", "--tlimit=20000", name], capture_output=True, text=True)
            out = p.stdout.strip().splitlines()
            r = out[0] if out else "unknown"
        except OSError:
            r = "unknown"
        finally:
            os.unlink(name)
        self.stats.cvc5_time += time.time() - t0
        if r == "unsat":
            self.stats.cvc5_ok += 1
        elif r == "sat":
            self.stats.cvc5_disagree += 1
        else:
            self.stats.cvc5_unknown += 1
