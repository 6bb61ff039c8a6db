#!/usr/bin/env -S python3-vt
"""check.py PROPERTY: decide one property on /repo's current working tree.

1. dump the MIR of the working tree (tools/mir.sh);
2. run the deductive verifier (vc/) on the specifications that carry the property;
3. run the replay harness (harness/) for the property: it looks for a failing input against the
   real code, and replays it.

exit 0: every obligation was discharged (or, where a function is out of the verifier's reach, the
bounded stand-in passed: the evidence then says so), exit 1: a VIOLATION line.
"""
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vc"))
os.environ["CARGO_NET_OFFLINE"] = "true"
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))

# property -> specifications that carry it
SPECS = {
    "C01": ["spec_conn:Conn"],
    "C02": ["spec_conn:Conn"],
    "C03": ["spec_conn:Conn"],
    "C04": ["spec_conn:Conn"],
    "C05": ["spec_conn:Conn"],
    "C06": ["spec_codec:Prost"],
    "C07": ["spec_codec:MsgPack"],
    "C08": ["spec_client:Reactor"],
    "C09": ["spec_client:Streaming", "spec_client:Unary"],
    "C10": ["spec_client:Streaming", "spec_client:Unary"],
    "C11": ["spec_client:Client"],
    "C12": ["spec_client:Ending", "spec_client:Client"],
    "C13": ["spec_server:Submitter", "spec_server:Server"],
    "C14": ["spec_server:Server"],
    "C15": ["spec_server:Server", "spec_server:Abortable"],
    "C16": ["spec_server:Server"],
    "C17": ["spec_setup:Accept", "spec_setup:Connect"],
    "C19": ["spec_conn:Conn", "spec_codec:MsgPack"],
    "C18": ["spec_codes:Codes"],
    "C20": ["spec_client:Reactor", "spec_client:Streaming", "spec_client:Unary", "spec_client:Client", "spec_server:Server"],
}

NOTES = {}
NA = {}

TRUSTED = [
    "rustc nightly front end and MIR construction (the verified text is the MIR of /repo's working tree)",
    "vc/: the verification condition generator and its contracts for std, bytes, prost, rmp, tokio (vc/lib.py and the spec_*.py env functions)",
    "z3 as the deciding solver",
]


def dump_mir(out):
    env = dict(os.environ, REPO=REPO, VERIF_BUILD=BUILD)
    p = subprocess.run(["bash", os.path.join(HERE, "tools/mir.sh"), out], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    cmd = "python3-vt check.py " + prop
    from known import lines_for
    for l in lines_for(prop):
        print(l)
    if tier == "thorough":
        os.environ["VC_CVC5"] = "1"

    rc, out = dump_mir(os.path.join(BUILD, "mir-%s" % prop))
    if rc != 0:
        print(out[-3000:])
        print("the working tree does not compile; nothing was decided")
        return 2

    # the harness searches while the prover proves
    import harness
    hproc = harness.start(prop, tier, seed, BUILD, REPO)

    from mir import Program
    from spec_base import run_spec
    prog = Program(os.path.join(BUILD, "mir-%s" % prop))
    results = []
    for name in SPECS.get(prop, ()):
        mod, cls = name.split(":")
        spec = getattr(importlib.import_module(mod), cls)()
        results.append(run_spec(prog, spec))

    failed, discharged, total, undecided = [], 0, 0, []
    obl, fns, assumptions = [], set(), []
    queries = stime = 0
    cv = {"agreed": 0, "unknown": 0, "disagreed": 0}
    for r in results:
        obs = [o for o in r.obs if prop in o.props]
        s = r.ex.smt.stats
        queries += s.queries
        stime += s.time
        cv["agreed"] += s.cvc5_ok
        cv["unknown"] += s.cvc5_unknown
        cv["disagreed"] += s.cvc5_disagree
        fns |= set(r.ex.functions)
        assumptions += [a for a in r.spec.assumptions() if a not in assumptions]
        for o in obs:
            total += 1
            ok = o.failed is None
            discharged += ok
            obl.append({"obligation": o.name, "at": o.where, "paths": o.paths, "discharged": ok})
            if not ok:
                (failed if o.failed[0] == "failed" else undecided).append((r, o))
        if r.status != "ok":
            undecided.append((r, None))
        else:
            for want in r.spec.required(prop):
                if not any(o.name.startswith(want) for o in obs):
                    r.why = "the obligation '%s' was not generated" % want
                    undecided.append((r, None))
    if not results:
        undecided.append((None, None))
    hres = harness.finish(hproc, need=bool(failed or undecided))

    viol, nowit = None, False
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    rpath = os.path.join(HERE, "replays", "%s.txt" % prop)
    if hres and hres.get("violation"):
        viol = "harness"
    elif failed:
        viol, nowit = "proof", True
    why = []
    for r, o in undecided:
        if o is not None:
            why.append("solver gave no answer for '%s' at %s" % (o.name, o.where))
        elif r is not None:
            why.append("%s: %s: %s" % (r.spec.name, r.status, r.why))
        else:
            why.append("no specification")
    if viol:
        with open(rpath, "w") as f:
            f.write("property %s\n" % prop)
            for r, o in failed:
                f.write("\nfailed obligation: %s\n  at %s\n  specification %s, back end z3\n  path:\n" % (o.name, o.where, r.spec.name))
                f.writelines("    %s\n" % x for x in o.failed[1])
                f.write("  counterexample state:\n%s\n" % o.failed[2])
            for w in why:
                f.write("not decided by proof: %s\n" % w)
            if hres and hres.get("violation"):
                f.write("\nfailing input, replayed against the real code:\n%s\n" % hres["violation"])
                f.write("replay: %s\n" % hres.get("replay", ""))
    bounded = bool(undecided)
    cov = {
        "obligations": total, "discharged": discharged,
        "checker_cmd": cmd, "trusted_base": TRUSTED,
        "functions_under_contract": sorted(fns),
        "back_end": "z3 %s" % __import__("z3").get_version_string(),
        "queries": queries, "solver_s": round(stime, 2),
        "obligation_list": obl,
    }
    if tier == "thorough":
        cov["cvc5_cross_check"] = cv
    if bounded:
        cov["not_proved"] = why
        cov["bounded"] = "where the proof gave no answer the verdict is that of the bounded replay harness"
    if hres:
        cov["replay_harness"] = {k: v for k, v in hres.items() if k not in ("violation",)}
        cov["evaluations"] = hres.get("evaluations", 0)
    level = "proof" if not bounded else "exploration"
    if level == "exploration":
        cov.setdefault("evaluations", 0)
        cov["distinct_nontrivial"] = (hres or {}).get("distinct", 0)
        cov["rule"] = (hres or {}).get("rule", "")
        cov["samples"] = (hres or {}).get("samples", [])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged, %d queries, solver %.1fs, wall %.1fs" %
          (prop, discharged, total, queries, stime, time.time() - t0))
    for w in why:
        print("  not proved (bounded stand-in decides): " + w)
    if hres:
        print("  harness: %s" % {k: v for k, v in hres.items() if k in ("evaluations", "distinct", "status")})
    if viol:
        for r, o in failed:
            print("  failed obligation: %s @ %s" % (o.name, o.where))
        print("VIOLATION property=%s replay=%s%s" % (prop, rpath, " no-failing-input-found" if nowit else ""))
        return 1
    print("property=%s holds%s" % (prop, " (bounded)" if bounded else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
