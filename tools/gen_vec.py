#!/usr/bin/env python3
"""Writes verus/inc/vec3.vti and vec4.vti: Vec3 / Vec4 with every body extracted, under
componentwise contracts."""
import os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "verus", "inc")

def gen(T, n):
    F = "xyzw"[:n]
    f = "lib/src/math/%s.rs" % T.lower()
    o = []
    def w(s): o.append(s)
    w("// Generated by tools/gen_vec.py. %s: bodies extracted from %s, componentwise contracts." % (T, f))
    w("#[derive(Clone, Copy)]")
    w("pub struct %s { %s }" % (T, ", ".join("pub %s: F32" % c for c in F)))
    def ext(i, item):
        w("//@extract %s %s --f32 %s" % (i, f, item)); w("//@end")
    def vec(g): return "%s { %s }" % (T, ", ".join("%s: %s" % (c, g(c)) for c in F))
    L = T.lower()
    meths = {}
    meths["new"] = "r == (%s { %s })" % (T, ", ".join(F))
    for c in F: meths[c] = "r == self.%s" % c
    meths["max"] = "r == (%s)" % vec(lambda c: "f_max(self.%s, other.%s)" % (c, c))
    meths["min"] = "r == (%s)" % vec(lambda c: "f_min(self.%s, other.%s)" % (c, c))
    meths["truncate"] = "r == (%s)" % vec(lambda c: "f_trunc(self.%s)" % c)
    if n == 4:
        for c in "xyzw": meths["splat_" + c] = "r == (%s)" % vec(lambda _: "self." + c)
        meths["to_vec3"] = "r == (Vec3 { x: self.x, y: self.y, z: self.z })"
        meths["reciprocal"] = "r == (%s)" % vec(lambda c: "f_div(lit(0x3f80_0000), self.%s)" % c)
        meths["any_less_than"] = "r == (%s)" % " || ".join("f_lt(self.%s, other.%s)" % (c, c) for c in F)
    else:
        meths["dot"] = "r == f_add(f_add(f_mul(self.x, other.x), f_mul(self.y, other.y)), f_mul(self.z, other.z))"
        meths["length2"] = "r == f_add(f_add(f_mul(self.x, self.x), f_mul(self.y, self.y)), f_mul(self.z, self.z))"
    for m in meths: ext("%s_%s" % (L, m), "method %s %s" % (T, m))
    w("impl %s {" % T)
    for m, e in meths.items():
        i = "%s_%s" % (L, m)
        w("pub fn %s($params(%s)) -> (r: $output(%s)) ensures %s,\n{\n//@body %s\n}" % (m, i, i, e, i))
    w("}")
    k = 0
    for op in ("Add", "Sub", "Mul") + (("Div",) if n == 3 else ()):
        lo = op.lower()
        w("pub open spec fn %s_%s(a: %s, b: %s) -> %s { %s }" % (L, lo, T, T, T, vec(lambda c: "f_%s(a.%s, b.%s)" % (lo, c, c))))
        w("pub open spec fn %s_%s_f(a: %s, b: F32) -> %s { %s }" % (L, lo, T, T, vec(lambda c: "f_%s(a.%s, b)" % (lo, c))))
        for (self_t, rhs, tr) in ((T, T, op), (T, "&" + T, "%s<&%s>" % (op, T)), ("&" + T, "&" + T, op), (T, "F32", op + "<F32>"), ("&" + T, "F32", op + "<F32>")):
            if op == "Div" and rhs != "F32" or n == 4 and self_t == "&Vec4" and rhs == "F32": continue
            i = "%s_%s%d" % (L, lo, k); k += 1
            ext(i, "impl %s %s %s" % (tr, self_t, lo))
            lt = "<'a>" if "&" in self_t + rhs else ""
            S = self_t.replace("&", "&'a "); R = rhs.replace("&", "&'a ")
            a = "*self" if "&" in self_t else "self"
            b = "*rhs" if "&" in rhs else "rhs"
            fn = "%s_%s%s" % (L, lo, "_f" if rhs == "F32" else "")
            w("impl%s vstd::std_specs::ops::%sSpecImpl<%s> for %s {" % (lt, op, R, S))
            w("    open spec fn obeys_%s_spec() -> bool { true }" % lo)
            w("    open spec fn %s_req(self, rhs: %s) -> bool { true }" % (lo, R))
            w("    open spec fn %s_spec(self, rhs: %s) -> %s { %s(%s, %s) }\n}" % (lo, R, T, fn, a, b))
            w("impl%s core::ops::%s<%s> for %s {\n type Output = %s;\n fn %s($params(%s)) -> $output(%s) {\n//@body %s\n}\n}" % (lt, op, R, S, T, lo, i, i, i))
    # compound assignment agrees with the operator (rewrite W9 relies on it)
    w("impl %s {" % T)
    ex = []
    for op in ("Add", "Sub", "Mul"):
        lo = op.lower()
        for tr, rhs in ((op + "Assign<%s>" % T if not (n == 3 and op == "Mul") else "MulAssign", T),):
            i = "%s_%s_as" % (L, lo)
            ex.append((i, tr, lo))
            w("pub fn vx_%s_assign($params(%s)) ensures *final(self) == %s_%s(*old(self), other),\n{\n//@body %s\n}" % (lo, i, L, lo, i))
    w("}")
    pre = []
    for i, tr, lo in ex:
        pre += ["//@extract %s %s --f32 impl %s %s %s_assign" % (i, f, tr, T, lo), "//@end"]
    txt = "\n".join(o)
    k = txt.rindex("impl %s {\npub fn vx_" % T)
    txt = txt[:k] + "\n".join(pre) + "\n" + txt[k:]
    open(os.path.join(D, L + ".vti"), "w").write(txt + "\n")
gen("Vec3", 3)
gen("Vec4", 4)
