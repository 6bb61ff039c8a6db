"""C18: control codes."""
import z3

from spec_base import Spec
from val import *
from core import St


# the wire values that peers rely on
WIRE = {"Normal": 0, "Cancel": 1, "End": 2}


class Codes(Spec):
    name = "control codes"
    props = ("C18",)
    unroll = 12

    def run(self, ex):
        to = self.find(ex, "protosocket_rpc", name="as_u8", impl_self="ProtosocketControlCode")
        fr = self.find(ex, "protosocket_rpc", name="from_u8", impl_self="ProtosocketControlCode")
        ty = fr.local_ty(0)
        n = len(ty.variants)
        # round trip and wire value of every code
        st = St()
        code = ex.fresh(st, ty, "code")
        p = ex.alloc(st, code)
        # as_u8 may take self by value or by reference
        arg = p if to.local_ty(1).k == "ref" else code
        for s, w in ex.exec_fn(st, to, [arg]):
            want = I(-1)
            for i, x in enumerate(ty.variants):
                want = z3.If(code.tag == i, I(WIRE.get(x["name"], -1)), want)
            ex.oblige(s, ("C18",), "as_u8 is the code's wire value", w == want, to.where())
            for s2, c in ex.exec_fn(s, fr, [w]):
                ex.oblige(s2, ("C18",), "from_u8(as_u8(code)) == code", I(c.tag) == code.tag, fr.where())
        # every wire value
        st = St()
        v = fint("wire")
        st.assume(z3.And(v >= 0, v <= 255))
        cancel = ty.variant_index("Cancel")
        for s, c in ex.exec_fn(st, fr, [v]):
            want = I(cancel)
            for i, x in enumerate(ty.variants):
                want = z3.If(v == WIRE.get(x["name"], -1), I(i), want)
            ex.oblige(s, ("C18",), "from_u8 reads assigned values as their code and others as Cancel",
                      I(c.tag) == want, fr.where())
