"""Runs the replay harness (harness/) next to the prover: it searches for a failing input, schedule or
fault against the real code, shrinks it and replays it. It gives a failed obligation its witness, and it
is the bounded stand-in where a function is out of the prover's reach."""
import json
import os
import subprocess
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK, MORE, THOROUGH = 20, 60, 240


class Job(threading.Thread):
    def __init__(self, prop, tier, seed, build, repo):
        super().__init__(daemon=True)
        self.prop, self.tier, self.seed = prop, tier, seed
        self.build, self.repo = build, repo
        self.bin = os.path.join(build, "harness-target", "debug", "harness")
        self.built, self.log, self.res = False, "", None

    def search(self, seed, seconds, threads):
        env = dict(os.environ, RUST_LOG="off", RUST_BACKTRACE="0")
        try:
            p = subprocess.run([self.bin, self.prop, str(seed), str(seconds), str(threads)], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=seconds + 120)
        except subprocess.TimeoutExpired:
            return {"status": "timeout", "evaluations": 0, "distinct": 0}
        for l in p.stdout.splitlines():
            if l.startswith("{"):
                try:
                    return json.loads(l)
                except ValueError:
                    pass
        if p.returncode not in (-4, -6, -7, -8, -11, 134, 139):
            return {"status": "no result (exit status %s)" % p.returncode, "evaluations": 0, "distinct": 0}
        # the process died: an abort in the code under test
        return {"status": "died", "evaluations": 0, "distinct": 0, "scenario": "", "choices": "",
                "violation": "the process running the real code died (exit status %s): %s" % (p.returncode, p.stderr[-1500:])}

    def run(self):
        env = dict(os.environ, REPO=self.repo, VERIF_BUILD=self.build)
        try:
            p = subprocess.run(["bash", os.path.join(HERE, "tools/harness.sh")], env=env, timeout=600,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            self.log = "the harness build timed out"
            return
        self.log = p.stdout[-2000:]
        if p.returncode != 0 or not os.path.exists(self.bin):
            return
        self.built = True
        if self.tier == "thorough":
            self.res = self.search(self.seed, THOROUGH, 6)
        else:
            self.res = self.search(self.seed, 3 if self.prop == "C18" else QUICK, 4)


def start(prop, tier, seed, build, repo):
    j = Job(prop, tier, seed, build, repo)
    j.start()
    return j


def finish(j, need=False):
    j.join()
    r = j.res
    if r is None:
        return {"status": "not built", "evaluations": 0, "distinct": 0, "log": j.log}
    if need and r.get("status") == "passed":
        n = r["evaluations"]
        d = r["distinct"]
        r = j.search(j.seed + 1000, MORE, 8)
        r["evaluations"] += n
        r["distinct"] = max(d, r["distinct"])
    r["rule"] = "distinct hashes of a run's sequence of environment events (messages, splits, faults, wakeups, configuration)"
    r["samples"] = ["harness %s %d: every input, schedule and fault of a run is drawn from a seeded sequence of choices" % (j.prop, j.seed)]
    if r.get("violation"):
        p = os.path.join(HERE, "replays", "%s.choices" % j.prop)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(r.get("choices", "") + "\n")
        r["replay"] = "bash tools/harness.sh && %s replay %s %s %s" % (j.bin, j.prop, r.get("scenario", ""), p)
    r.pop("choices", None)
    return r
