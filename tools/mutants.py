#!/usr/bin/env -S python3-vt
"""author helper: apply each mutant of mutants.txt to a scratch copy and see which properties' obligations and scenarios notice.
usage: mutants.py [NAME_PREFIX...]"""
import os, re, subprocess, sys, json, importlib, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, HERE + "/vc")
W = os.environ.get("W", "0/1").split("/")
D = "/tmp/w/mut" + os.environ.get("TAG", "") + W[0]
R, B = D + "/repo", D + "/build"
F = {"conn": "protosocket-connection/src/connection.rs", "mp": "protosocket-messagepack/src/lib.rs",
     "prost": "protosocket-prost/src/prost_serializer.rs", "reg": "protosocket-prost/src/prost_client_registry.rs",
     "reactor": "protosocket-rpc/src/client/reactor/completion_reactor.rs", "registry": "protosocket-rpc/src/client/reactor/completion_registry.rs",
     "stream": "protosocket-rpc/src/client/reactor/completion_streaming.rs", "unary": "protosocket-rpc/src/client/reactor/completion_unary.rs",
     "client": "protosocket-rpc/src/client/rpc_client.rs", "cfg": "protosocket-rpc/src/client/configuration.rs",
     "abort": "protosocket-rpc/src/server/abortable.rs", "server": "protosocket-rpc/src/server/connection_server.rs",
     "submit": "protosocket-rpc/src/server/rpc_submitter.rs", "accept": "protosocket-rpc/src/server/socket_server.rs",
     "paccept": "protosocket-server/src/connection_server.rs", "msg": "protosocket-rpc/src/message.rs",
     "lib": "protosocket-connection/src/lib.rs"}
CL = ["C08", "C09", "C10", "C11", "C12", "C20"]
SV = ["C13", "C14", "C15", "C16", "C20"]
P = {"conn": ["C01", "C02", "C03", "C04", "C05", "C19"], "mp": ["C07", "C19"], "prost": ["C06"], "reg": ["C17"], "reactor": CL, "registry": CL,
     "stream": CL, "unary": CL, "client": CL, "cfg": ["C17"], "abort": SV, "server": SV, "submit": SV, "accept": ["C17"], "paccept": ["C17"], "msg": ["C18"], "lib": ["C01", "C02", "C03", "C04", "C05"]}


def load(path):
    out, cur = [], None
    for block in re.split(r"(?m)^=== ", open(path).read())[1:]:
        head, rest = block.split("\n", 1)
        name, f = head.split()[:2]
        edits = []
        for part in re.split(r"(?m)^--- and\n", rest):
            a, b = re.split(r"(?m)^--->\n", part)
            edits.append((a.rstrip("\n"), b.rstrip("\n")))
        out.append((name, f, edits))
    return out


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    from check import SPECS
    from mir import Program
    from spec_base import run_spec
    os.makedirs(D, exist_ok=True)
    if not os.path.isdir(R):
        sh("git", "clone", "-q", "/repo", R)
    sh("git", "-C", R, "fetch", "-q", "origin"); sh("git", "-C", R, "reset", "-q", "--hard", "origin/main")
    want = sys.argv[2:]
    secs = os.environ.get("SECS", "6")
    for k, (name, f, edits) in enumerate(load(sys.argv[1])):
        if k % int(W[1]) != int(W[0]):
            continue
        if want and not any(name.startswith(w) for w in want):
            continue
        sh("git", "-C", R, "checkout", "-q", "--", ".")
        path = os.path.join(R, F[f])
        s = open(path).read()
        bad = False
        for a, b in edits:
            if s.count(a) < 1:
                print(name, "NO MATCH", repr(a[:60])); bad = True; break
            s = s.replace(a, b, -1 if name.endswith("-all") else 1)
        if bad:
            continue
        open(path, "w").write(s)
        env = dict(os.environ, REPO=R, VERIF_BUILD=B, CARGO_TARGET_DIR=D + "/target")
        t = sh("timeout", "120", "cargo", "test", "--offline", "--workspace", "--quiet", cwd=R, env=env)
        tests = "tests-pass" if t.returncode == 0 else ("NOCOMPILE" if "could not compile" in t.stdout else "TESTS-FAIL")
        if tests == "NOCOMPILE":
            print(name, tests, re.findall(r"error.*", t.stdout)[:2]); continue
        env.pop("CARGO_TARGET_DIR")
        h = sh("bash", HERE + "/tools/harness.sh", env=env)
        m = sh("bash", HERE + "/tools/mir.sh", B + "/mir", env=env)
        prog = Program(B + "/mir")
        props = P[f]
        specs = []
        for p in props:
            for sp in SPECS[p]:
                if sp not in specs:
                    specs.append(sp)
        proof, st = {p: set() for p in props}, []
        for sp in specs:
            mod, cls = sp.split(":")
            r = run_spec(prog, getattr(importlib.import_module(mod), cls)())
            for o in r.obs:
                if o.failed is not None:
                    for p in o.props:
                        if p in proof:
                            proof[p].add(o.name if o.failed[0] == "failed" else "?" + o.name)
            if r.status != "ok":
                st.append("%s:%s:%s" % (cls, r.status, str(r.why)[:100]))
        har = {}
        for p in props:
            try:
                o = sh(B + "/harness-target/debug/harness", p, "1", secs, os.environ.get("THREADS", "8"), timeout=200)
                d = json.loads([l for l in o.stdout.splitlines() if l.startswith("{")][-1])
                if d.get("violation"):
                    har[p] = (d.get("message") or d["violation"])[:90]
            except Exception as e:
                har[p] = "died %r" % e
        print("%-26s %s\n    proof   %s %s\n    harness %s" % (name, tests, {p: sorted(v)[:2] for p, v in proof.items() if v}, st, har), flush=True)


main()
