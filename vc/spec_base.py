"""Base of the specifications: how a root is found, run and judged."""
import time
import traceback

import z3

from core import Ex, St, Abort
from libsync import SyncLib
from val import *


class Missing(Exception):
    """the anchor of a specification isn't in the code any more"""


class Spec:
    name = "spec"
    props = ()
    setlen_props = ()
    explore_drops = False
    joins = False
    budget = 240

    def env(self, ex, st, sn, ref, crate, args, where):
        return None

    def call_fn(self, ex, st, f, args, where):
        return None

    def join_at(self, ex, fn):
        return True

    def assumptions(self):
        return []

    # obligations (by prefix of their name) that must have been generated for a property
    needs = {}

    def required(self, prop):
        return self.needs.get(prop, ())

    def run(self, ex):
        raise NotImplementedError

    def find(self, ex, crate, **kw):
        fs = ex.prog.find(crate, **kw) if crate in ex.prog.crates else []
        if not fs:
            raise Missing("%s: no function %s" % (crate, kw))
        return fs[0]

    def find_impl(self, ex, crate, trait, name, self_=None):
        for f in ex.prog.crates[crate].fns if crate in ex.prog.crates else ():
            if f.body and f.name == name and (f.j.get("impl_trait") or "").split("<")[0].split("::")[-1] == trait:
                if self_ is None or f.j.get("impl_self") == self_:
                    return f
        raise Missing("%s: no %s::%s" % (crate, trait, name))


class Result:
    pass


def run_spec(prog, spec):
    ex = Ex(prog, SyncLib(), spec.budget)
    ex.spec = spec
    ex.panic_props = spec.props
    r = Result()
    r.spec, r.ex = spec, ex
    r.status, r.why, r.tb = "ok", "", ""
    t0 = time.time()
    try:
        spec.run(ex)
    except Unsupported as e:
        r.status, r.why = "unsupported", str(e)
        r.tb = traceback.format_exc()
    except Missing as e:
        r.status, r.why = "missing", str(e)
    except Abort as e:
        r.status, r.why = "abort", str(e)
    except Exception as e:   # a construct that the engine does not handle
        r.status, r.why = "unsupported", "%s: %s" % (type(e).__name__, e)
        r.tb = traceback.format_exc()
    r.time = time.time() - t0
    r.obs = list(ex.obs.values())
    if r.status == "ok" and not r.obs:
        r.status, r.why = "unsupported", "no obligations were generated"
    return r
