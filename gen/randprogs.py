"""Composite programs drawn from a grammar over every node kind (fixed seed: the catalogue is a constant).
They put node kinds next to each other in ways nobody chose by hand."""
import random

class G:
    def __init__(g, seed):
        g.r = random.Random(seed); g.leaves = {}; g.tags = set(); g.ph = []; g.idx = None; g.nested = 0
        g.stat = False; g.det = False
        g.sleft = 14      # size budget: compile time grows quickly with the expression
        g.tgt = []
    def use(g, nm, dim, dom): g.leaves[nm] = f"{nm}{dim}:{dom}"
    def ch(g, p): return g.r.random() < p
    def one(g, *xs): return g.r.choice(xs)

    def s_leaf(g):
        o = []
        if g.idx: o += ["v0i", "v1i"] * 2
        o += ["s0", "s1", "s2"]
        o += [p for p in g.ph if p[0] == "s"] * 2 + [t for t in g.tgt if t[0] == "s"]
        if g.idx: o += [p + "i" for p in g.ph + g.tgt if p[0] == "v"]
        x = g.r.choice(o)
        if x[-1] == "i": g.base(x[:-1]); return f"L.v({x[1]})[{g.idx}]"
        g.base(x); return f"L.s({x[1]})"
    def base(g, x):
        if x in g.leaves: return
        g.use(x, {"s": "", "v": "[n]", "m": "[n,n]"}[x[0]], "real")
    def v_leaf(g):
        x = g.r.choice(["v0", "v1"] + [p for p in g.ph if p[0] == "v"] * 2 + [t for t in g.tgt if t[0] == "v"]); g.base(x); return f"L.v({x[1]})"
    def m_leaf(g):
        x = g.r.choice(["m0", "m1"] + [p for p in g.ph if p[0] == "m"] * 2); g.base(x); return f"L.m({x[1]})"
    def const(g, k, view=True):
        g.tags.add("const")
        if k == "s": g.use("cs0", "", "real"); return "L.cs(0)"
        if view and g.ch(.4) and not g.stat: g.tags.add("view"); nm = "k"
        else: nm = "c"
        if k == "v": g.use(nm + "v0", "[n]", "real"); return f"L.{nm}v(0)"
        g.use(nm + "m0", "[n,n]", "real"); return f"L.{nm}m(0)"
    def cond(g, d):
        c = g.one("<", "<=", ">", ">=")
        a = g.S(d - 1)
        return f"{a} {c} {g.S(d - 1)}" if g.ch(.7) else f"{a} {c} 0.25"
    def nest(g, k, e):     # sometimes the operand is an assignment that is used again later
        return e
    def un(g, x, vec):
        f = g.one("sin({})", "cos({})", "atan({})", "erf({})", "(-{})", "exp(sin({}))", "sin({})", "log({0} * {0} + 1.25)", "sqrt({0} * {0} + 0.75)") if not vec else \
            g.one("sin({})", "cos({})", "tanh({})", "sigmoid({})", "(-{})", "exp(cos({}))", "atan({})", "sin({})")
        if "{0}" in f and len(x) > 40: f = "cos({})"
        return f.format(x)
    def S(g, d):
        g.sleft -= 1
        if d <= 0 or g.sleft < 0 or g.ch(.08): return g.s_leaf()
        k = g.r.randrange(15)
        if k <= 1: return g.un(g.S(d - 1), False)
        if k <= 4: return f"({g.S(d - 1)} {g.one('+', '-', '*', '*')} {g.S(d - 1)})"
        if k == 5: return f"({g.S(d - 1)} / (sin({g.s_leaf()}) + 2.5))"
        if k == 6: return f"({g.S(d - 1)} {g.one('+', '-', '*')} {g.const('s')})" if g.ch(.5) else f"({g.const('s')} {g.one('+', '-', '*')} {g.S(d - 1)})"
        if k == 7: g.tags.add("pow"); return f"L.template pow<{g.one(0, 1, 2, 3)}>(sin({g.S(d - 1)}))"
        if k == 8: return f"sum({g.V(d - 1)})"
        if k == 9: g.tags.add("prod"); return f"prod({g.V(d - 1)})"
        if k == 10: g.tags.add("norm"); return f"norm({g.V(d - 1) if g.ch(.7) else g.M(d - 1)})"
        if k == 11 and not g.idx:
            g.tags.add("iter"); g.idx = "i"; b = g.S(d - 1); g.idx = None; f = g.one("sum_n", "sum_n", "prod_n")
            cnt = g.one("L.n", "L.n", "2")
            if cnt == "2" : b = g.reidx(b)
            return f"L.{f}({cnt}, [&](int i) {{ (void)i; return sin({b}) * 1.25; }})"
        if k == 12: g.tags.add("ifelse"); c = g.cond(d); a = g.S(d - 1); b = g.S(d - 1); return f"if_else({c}, {a}, {b})"
        if k == 13: g.tags.add("cmp"); return f"(({g.cond(d)}) * {g.s_leaf()})"
        if k == 14 and g.ch(.6):
            g.tags.add("stat"); g.stat = True
            w = g.r.randrange(4)
            if w == 0: return f"normal_adj_log_pdf({g.V(d - 1)}, {g.S(d - 2)}, exp(sin({g.s_leaf()})))"
            if w == 1: return f"cauchy_adj_log_pdf({g.V(d - 1)}, {g.v_leaf()}, exp(sin({g.s_leaf()})))"
            if w == 2: return f"normal_adj_log_pdf({g.S(d - 1)}, {g.s_leaf()}, exp(cos({g.s_leaf()})))"
            return f"uniform_adj_log_pdf(sin({g.V(d - 2)}), {g.s_leaf()} - 4.0, exp({g.s_leaf()}) + 1.5)"
        return f"sum({g.M(d - 1)})"
    def reidx(g, b): return b.replace("[i]", "[0]")
    def V(g, d):
        g.sleft -= 1
        if d <= 0 or g.sleft < 0 or g.ch(.12): return g.v_leaf()
        k = g.r.randrange(11)
        if k <= 1: return g.un(g.V(d - 1), True)
        if k <= 3: return f"({g.V(d - 1)} {g.one('+', '-', '*')} {g.V(d - 1)})"
        if k == 4: return f"({g.V(d - 1)} {g.one('+', '-', '*')} {g.S(d - 1)})"
        if k == 5: return f"({g.S(d - 1)} {g.one('+', '-', '*')} {g.V(d - 1)})"
        if k == 6: return f"({g.V(d - 1)} {g.one('+', '-', '*')} {g.const('v')})"
        if k == 7: g.tags.add("dot"); return f"dot({g.M(d - 1)}, {g.V(d - 1)})"
        if k == 8: g.tags.add("ifelse"); c = g.cond(d); a = g.V(d - 1); b = g.V(d - 1); return f"if_else({c}, {a}, {b})"
        if k == 9 and not g.idx:
            g.tags.add("iter"); f = g.one("sum_n", "prod_n"); return f"L.{f}(2, [&](int i) {{ return {g.V(d - 1)} * (i + 0.5); }})"
        if k == 10: g.tags.add("pow"); return f"L.template pow<{g.one(1, 2, 3)}>(cos({g.V(d - 1)}))"
        return f"({g.V(d - 1)} / (cos({g.v_leaf()}) + 2.0))"
    def M(g, d):
        g.sleft -= 1
        if d <= 0 or g.sleft < 0 or g.ch(.15): return g.m_leaf()
        k = g.r.randrange(8)
        if k <= 1: return g.un(g.M(d - 1), True)
        if k == 2: return f"({g.M(d - 1)} {g.one('+', '-', '*')} {g.M(d - 1)})"
        if k == 3: return f"({g.M(d - 1)} {g.one('+', '-', '*')} {g.S(d - 1)})"
        if k == 4: g.tags.add("dot"); return f"dot({g.M(d - 1)}, {g.M(d - 1)})"
        if k == 5: g.tags.add("transpose"); return f"transpose({g.M(d - 1)})"
        if k == 6: g.tags.add("ifelse"); c = g.cond(d); a = g.M(d - 1); b = g.M(d - 1); return f"if_else({c}, {a}, {b})"
        return f"({g.M(d - 1)} {g.one('+', '-', '*')} {g.const('m')})"
    def fill(g, f, d, budget):
        g.sleft = budget; return f(d)
    def program(g, style):
        stm = []
        if style == "op":       # compound assignments on private targets
            g.tags.add("opassign")
            ts = g.r.sample(["s5", "v5", "s6"], g.r.randrange(1, 3))
            for t in ts: g.use(t, "[n]" if t[0] == "v" else "", "nz!"); g.tgt.append(t)
        for _ in range(g.r.randrange(1, 4) if style in ("ph", "op") else 0):
            if style == "op" and g.ch(.65):
                t = g.r.choice(g.tgt); o = g.one("+=", "-=", "*=", "/=")
                keep, g.tgt = g.tgt, [x for x in g.tgt if x != t]
                b = g.fill(g.S if t[0] == "s" or g.ch(.3) else g.V, 2, 6); g.tgt = keep
                isS = t[0] == "s"
                if o in ("*=", "/="): b = f"(sin({b}) + 1.75)"
                stm.append(f"L.{t[0]}({t[1]}) {o} sin({b})" if o in ("+=", "-=") else f"L.{t[0]}({t[1]}) {o} {b}")
                continue
            free = [x for x in ("s9", "s8", "v9", "v8", "m9") if x not in g.ph]
            x = g.r.choice(free)
            if x[0] == "v" and g.ch(.35):
                g.tags.add("for_each"); g.idx = "i"; b = g.fill(g.S, 2, 5); g.idx = None
                stm.append(f"L.each_n(L.n, [&](int i) {{ return L.v({x[1]})[i] = sin({b}); }})")
            else:
                b = g.fill({"s": g.S, "v": g.V, "m": g.M}[x[0]], 3, 7)
                e = f"sin({b})" if x[0] == "s" else f"cos({b})"
                stm.append(f"L.{x[0]}({x[1]}) = {e}")
            g.tags.add("ph"); g.use(x, {"s": "", "v": "[n]", "m": "[n,n]"}[x[0]], "ph"); g.ph.append(x)
        k = g.r.randrange(6)
        if style == "det":
            g.tags |= {"det", "full"}
            g.use("m2", "[n,n]", "gen"); body = f"L.template {g.one('det', 'log_det')}<0>({g.one('L.m(2)', 'L.m(2) * 1.5', 'transpose(L.m(2))')}) * {g.fill(g.S, 2, 5)}"
        elif style == "root": body = g.fill(g.V if k < 3 else g.M, 4, 12)
        else: body = g.fill(g.S if k < 4 else g.V if k == 4 else g.M, 4, 12 if not stm else 8)
        if body.startswith("L.") and body.endswith(")") and body.count("(") == 1 and "pow" not in body: body = f"sin({body})"   # a root is an expression
        txt = "(" + ", ".join(stm + [body]) + ")" if stm else body
        if not any(l[0] in "svm" and ":ph" not in l for l in g.leaves.values()): return None
        return " ".join(g.leaves[x] for x in sorted(g.leaves)), "core rand " + " ".join(sorted(g.tags)), txt

def make():
    out = []
    for style, count in (("flat", 45), ("root", 30), ("ph", 60), ("op", 45), ("det", 10)):
        i = 0; n = 0
        while n < count:
            g = G(f"{style}-{i}"); i += 1
            p = g.program(style)
            if p is None or len(p[2]) < 45 or len(p[2]) > 420: continue
            out.append((f"rnd_{style}_{n}",) + p); n += 1
    return out
if __name__ == "__main__":
    for p in make(): print(*p, sep=" | ")
