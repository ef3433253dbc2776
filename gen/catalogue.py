#!/usr/bin/env python3
"""The catalogue of simulated programs: every public node kind x operand shapes x
variable/constant/view operands, alone and composed.  Each entry is
(name, leaves, tags, body); the body is written once and compiled twice (library, reference)."""
import sys, os

P = []
def add(name, leaves, tags, body): P.append((name, leaves, tags, body))

S, V, M = "s", "v", "m"
dims = {S: "", V: "[n]", M: "[n,k]"}
def lf(kind, i, dom="real", pre="", dim=None):
    """returns (leaf spec, accessor)"""
    nm = f"{pre}{kind}"
    d = dims[kind] if dim is None else dim
    return f"{nm}{i}{d}:{dom}", f"L.{nm}({i})"

# ---- unary ---------------------------------------------------------------------------
UN = dict(neg=("-{}", "real"), sin=("sin({})", "real"), cos=("cos({})", "real"), tan=("tan({})", "angle"),
          asin=("asin({})", "sym1"), acos=("acos({})", "sym1"), atan=("atan({})", "real"), exp=("exp({})", "real"),
          log=("log({})", "pos"), sqrt=("sqrt({})", "pos"), erf=("erf({})", "real"),
          sinh=("sinh({})", "real"), cosh=("cosh({})", "real"), tanh=("tanh({})", "real"), sigmoid=("sigmoid({})", "real"))
NOSCL = set()
for f, (pat, dom) in UN.items():
    if f not in ("sinh", "cosh", "tanh", "sigmoid"):
        a, x = lf(S, 0, dom); b, y = lf(S, 1)
        add(f"un_{f}_s", f"{a} {b}", "core unary", pat.format(x) + f" * {y}")
    if f in ("sinh", "cosh", "tanh", "sigmoid"):
        continue_vec = True
    a, x = lf(V, 0, dom)
    add(f"un_{f}_v", a, "core unary", pat.format(x))
    a, x = lf(M, 0, dom); b, y = lf(M, 1)
    add(f"un_{f}_m", f"{a} {b}", "core unary", f"sum({pat.format(x)} * {y})")
    if f in ("sin", "exp", "log", "sqrt", "atan", "sigmoid", "tanh"):
        add(f"un_{f}_m2", f"m0[n,k]:{dom}", "core unary", pat.format("L.m(0)"))
add("un_nest_s", "s0:real s1:real", "core unary", "sin(cos(L.s(0)) * exp(L.s(1)))")
add("un_nest_v", "v0[n]:real v1[n]:real", "core unary", "sin(cos(L.v(0)) * exp(L.v(1)))")
add("un_nest_m", "m0[n,k]:real m1[n,k]:pos", "core unary", "exp(sin(L.m(0)) * log(L.m(1)))")

# ---- binary ----------------------------------------------------------------------------
BIN = dict(add="+", sub="-", mul="*", div="/")
SH = [(S, S), (S, V), (V, S), (V, V), (S, M), (M, S), (M, M)]
for o, c in BIN.items():
    d2 = "nz" if o == "div" else "real"
    for l, r in SH:
        a, x = lf(l, 0); b, y = lf(r, 1, d2)
        add(f"bin_{o}_{l}{r}", f"{a} {b}", "core binary", f"{x} {c} {y}")
    # constants and views, both sides; the same operation inside a larger expression
    for l, r in SH:
        a, x = lf(l, 0, "real", "c"); b, y = lf(r, 0, d2)
        a2, x2 = lf(l, 0); b2, y2 = lf(r, 0, d2, "c")
        if (l, r) in ((S, S), (V, V), (M, M), (S, V), (M, S)):
            add(f"bin_{o}_c{l}{r}", f"{a} {b}", "core binary const", f"{x} {c} {y}")
        if (l, r) in ((S, S), (V, V), (M, M), (V, S), (S, M)):
            add(f"bin_{o}_{l}c{r}", f"{a2} {b2}", "core binary const", f"sin({x2} {c} {y2})")
    a, x = lf(V, 0, "real", "k"); b, y = lf(V, 0, d2); add(f"bin_{o}_kvv", f"{a} {b}", "core binary const view", f"{x} {c} {y}")
    a, x = lf(M, 0); b, y = lf(M, 0, d2, "k"); add(f"bin_{o}_mkm", f"{a} {b}", "core binary const view", f"{x} {c} {y}")
    a, x = lf(S, 0); b, y = lf(V, 0, d2, "k"); add(f"bin_{o}_skv", f"{a} {b}", "core binary const view", f"sum({x} {c} {y})")
add("bin_same", "s0:real v0[n]:nz", "core binary", "L.v(0) * L.v(0) / L.v(0) + L.s(0) * L.v(0) - L.s(0)")
add("bin_ccv", "cv0[n]:real cv1[n]:nz v0[n]:real cs0:nz", "core binary const", "(L.cv(0) / L.cv(1) + L.cs(0)) * L.v(0) - L.cv(1) * L.cv(0)")
add("bin_ccs", "cs0:real cs1:nz s0:real", "core binary const", "(L.cs(0) * L.cs(1) - L.cs(0) / L.cs(1)) * exp(L.s(0))")
add("bin_ccm", "cm0[n,k]:real cm1[n,k]:nz m0[n,k]:real", "core binary const", "(L.cm(0) * L.cm(1)) - L.m(0) / L.cm(1)")
add("bin_uncc", "cv0[n]:pos v0[n]:real cs0:pos", "core binary const", "exp(L.cv(0)) * L.v(0) + log(L.cs(0))")
add("bin_deep", "s0:real s1:nz s2:pos v0[n]:real", "core binary", "sum((L.v(0) * L.s(0) - L.s(2)) / L.s(1)) * L.s(0) + L.s(1) / L.s(2)")
add("bin_mdeep", "m0[n,k]:real m1[n,k]:nz s0:real", "core binary", "(L.m(0) - L.s(0)) * (L.s(0) / L.m(1)) + L.m(0)")

# ---- comparisons as operands ----------------------------------------------------------------
CMP = dict(lt="<", le="<=", gt=">", ge=">=", eq="==", ne="!=")
for o, c in CMP.items():
    add(f"cmp_{o}_s", "s0:real s1:real", "core cmp", f"(L.s(0) {c} L.s(1)) * L.s(0) + L.s(1)")
    add(f"cmp_{o}_v", "v0[n]:real v1[n]:real s0:real", "core cmp", f"sum((L.v(0) {c} L.v(1)) * L.v(0)) + sum((L.v(1) {c} L.s(0)) * L.s(0))")
add("cmp_and", "s0:real s1:real s2:real", "core cmp", "((L.s(0) < L.s(1)) && (L.s(2) > L.s(1))) * L.s(0) + L.s(2)")
add("cmp_or", "s0:real s1:real s2:real", "core cmp", "((L.s(0) < L.s(1)) || (L.s(2) > L.s(1))) * L.s(0) + L.s(2)")
add("cmp_m", "m0[n,k]:real m1[n,k]:real", "core cmp", "(L.m(0) < L.m(1)) * L.m(0)")

# ---- pow -----------------------------------------------------------------------------------
for e in (-3, -2, -1, 0, 1, 2, 3, 5):
    t = str(e).replace("-", "m")
    add(f"pow_{t}_s", "s0:nz s1:real", "core pow", f"L.template pow<{e}>(L.s(0)) * L.s(1)")
    add(f"pow_{t}_v", "v0[n]:nz", "core pow", f"L.template pow<{e}>(L.v(0))")
    if e in (-2, 0, 1, 3): add(f"pow_{t}_m", "m0[n,k]:nz m1[n,k]:real", "core pow", f"sum(L.template pow<{e}>(L.m(0)) * L.m(1))")
add("pow_zero_s", "s0:zmix s1:real", "core pow zeros", "L.template pow<2>(L.s(0)) * L.s(1) + L.template pow<3>(L.s(0))")
add("pow_zero_v", "v0[n]:zmix", "core pow zeros", "sum(L.template pow<2>(L.v(0)) + L.template pow<1>(L.v(0)) * L.template pow<0>(L.v(0)))")
add("pow_expr", "v0[n]:real s0:nz", "core pow", "sum(L.template pow<2>(sin(L.v(0)) * L.s(0)))")
add("pow_c", "cv0[n]:nz v0[n]:real", "core pow const", "L.template pow<3>(L.cv(0)) * L.v(0)")

# ---- reductions -----------------------------------------------------------------------------
for k in (S, V, M):
    a, x = lf(k, 0); z, _ = lf(k, 0, "zmix")
    add(f"sum_e_{k}", f"{a} s1:real", "core sum", f"sum({x}) * L.s(1)")
    add(f"sum_x_{k}", f"{a}", "core sum", f"sum(sin({x}) * {x})")
    add(f"prod_e_{k}", f"{a} s1:real", "core prod", f"prod({x}) * L.s(1)")
    add(f"prod_x_{k}", f"{z}", "core prod zeros", f"prod({x} * sin({x} + 1.0))")
    add(f"prod_z_{k}", f"{z} s1:real", "core prod zeros", f"prod({x}) + L.s(1)")
    add(f"norm_{k}", f"{a} s1:real", "core norm", f"norm({x}) * L.s(1)") if k != S else None
    add(f"norm_x_{k}", f"{a} s1:real", "core norm", f"norm({x} - L.s(1))") if k != S else None
add("sum_c", "cv0[n]:real v0[n]:real", "core sum const", "sum(L.cv(0)) * sum(L.v(0))")
add("prod_c", "cv0[n]:nz s0:real", "core prod const", "prod(L.cv(0)) * L.s(0)")
add("norm_c", "cm0[n,k]:real s0:real", "core norm const", "norm(L.cm(0)) * L.s(0)")
add("sum_it_s", "v0[n]:real s0:real", "core sum iter", "L.sum_n(L.n, [&](int i) { return L.v(0)[i] * L.s(0); })")
add("sum_it_s2", "v0[n]:real v1[n]:pos s0:real", "core sum iter", "L.sum_n(L.n, [&](int i) { return sin(L.v(0)[i]) / L.v(1)[i] + L.s(0); }) * L.s(0)")
add("sum_it_v", "v0[n]:real v1[k]:real", "core sum iter", "L.sum_n(L.k, [&](int i) { return L.v(0) * L.v(1)[i]; })")
add("sum_it_m", "m0[n,k]:real v0[n]:real", "core sum iter", "L.sum_n(L.n, [&](int i) { return L.m(0) * L.v(0)[i]; })")
add("sum_it_leaf", "v0[n]:real s0:real", "core sum iter", "L.sum_n(L.n, [&](int i) { return L.v(0)[i]; }) * L.s(0)")
add("sum_it_nest", "v0[n]:real v1[k]:real s0:real", "core sum iter", "L.sum_n(L.n, [&](int i) { return L.sum_n(L.k, [&](int j) { return L.v(0)[i] * L.v(1)[j] + L.s(0); }); })")
add("prod_it_s", "v0[n]:real s0:real", "core prod iter", "L.prod_n(L.n, [&](int i) { return L.v(0)[i] + L.s(0); })")
add("prod_it_z", "v0[n]:zmix s0:real", "core prod iter zeros", "L.prod_n(L.n, [&](int i) { return L.v(0)[i] * exp(L.v(0)[i]); }) * L.s(0)")
add("prod_it_v", "v0[n]:zmix v1[k]:real", "core prod iter zeros", "L.prod_n(L.k, [&](int i) { return L.v(0) * L.v(1)[i]; })")
add("prod_it_v2", "v0[n]:zmix v1[n]:zmix", "core prod iter zeros", "L.prod_n(2, [&](int i) { return i ? L.v(0) * 1.0 : L.v(1) * 2.0; })")
add("prod_it_leaf", "v0[n]:zmix s0:real", "core prod iter zeros", "L.prod_n(L.n, [&](int i) { return L.v(0)[i]; }) * L.s(0)")
add("prod_it_m", "m0[n,k]:zmix v0[k]:nz", "core prod iter zeros", "L.prod_n(L.k, [&](int i) { return L.m(0) + L.v(0)[i]; })")
add("prod_of_sums", "v0[n]:real v1[k]:real", "core prod sum iter", "L.prod_n(L.n, [&](int i) { return L.sum_n(L.k, [&](int j) { return L.v(0)[i] * L.v(1)[j]; }); })")
add("sum_of_prods", "v0[n]:zmix v1[n]:real", "core prod sum iter zeros", "sum(prod(L.v(0)) * L.v(1)) + prod(sum(L.v(0)) * L.v(1))")

# ---- linear algebra --------------------------------------------------------------------------
add("dot_mv", "m0[n,k]:real v0[k]:real", "core dot", "dot(L.m(0), L.v(0))")
add("dot_mm", "m0[n,k]:real m1[k,n]:real", "core dot", "dot(L.m(0), L.m(1))")
add("dot_cmv", "cm0[n,k]:real v0[k]:real", "core dot const", "dot(L.cm(0), L.v(0))")
add("dot_mcv", "m0[n,k]:real cv0[k]:real", "core dot const", "dot(L.m(0), L.cv(0))")
add("dot_kmv", "km0[n,k]:real v0[k]:real", "core dot const view", "dot(L.km(0), L.v(0))")
add("dot_cmcv", "cm0[n,k]:real cv0[k]:real v0[n]:real", "core dot const", "sum(dot(L.cm(0), L.cv(0)) * L.v(0))")
add("dot_kmcv", "km0[n,k]:real kv0[k]:real v0[n]:real", "core dot const view", "norm(L.v(0) - dot(L.km(0), L.v(1)))".replace("L.v(1)", "L.v(1)"))
P.pop()
add("dot_mkm", "m0[n,k]:real km0[k,n]:real", "core dot const view", "sum(dot(L.m(0), L.km(0)))")
add("dot_chain", "m0[n,k]:real m1[k,n]:real v0[n]:real", "core dot", "sum(dot(L.m(0), dot(L.m(1), L.v(0))))")
add("dot_expr", "m0[n,k]:real v0[k]:real s0:real", "core dot", "norm(dot(L.m(0) * L.s(0), exp(L.v(0))))")
add("dot_mmv", "m0[n,k]:real m1[k,n]:real v0[n]:real", "core dot", "dot(dot(L.m(0), L.m(1)), L.v(0))")
add("tr_m", "m0[n,k]:real", "core transpose", "transpose(L.m(0))")
add("tr_x", "m0[n,k]:real m1[k,n]:real", "core transpose", "sum(transpose(sin(L.m(0))) * L.m(1))")
add("tr_tr", "m0[n,k]:real", "core transpose", "transpose(transpose(L.m(0)) * 2.0)")
add("tr_dot", "m0[n,k]:real v0[n]:real", "core transpose dot", "dot(transpose(L.m(0)), L.v(0))")
add("tr_v", "v0[n]:real m0[n,k]:real", "core transpose dot", "dot(transpose(L.v(0)), L.m(0))")
add("quad", "m0[n,n]:real v0[n]:real", "core transpose dot", "dot(transpose(L.v(0)), dot(L.m(0), L.v(0)))")
add("linreg", "cm0[n,k]:real cv0[n]:real v0[k]:real s0:real", "core dot norm const", "norm(L.cv(0) - (dot(L.cm(0), L.v(0)) + L.s(0)))")
add("linreg_k", "km0[n,k]:real kv0[n]:real v0[k]:real s0:real", "core dot norm const view", "norm(L.kv(0) - (dot(L.km(0), L.v(0)) + L.s(0)))")

# ---- determinants -----------------------------------------------------------------------------
for p, nm in ((0, "full"), (1, "ldlt"), (2, "llt")):
    dom = "gen" if p == 0 else "spd"
    for f in ("det", "log_det"):
        d = dom if (f == "det" or p) else "gen"
        tag = f"core det {nm}"
        add(f"{f}_{nm}", f"m0[n,n]:{d}", tag + " detroot", f"L.template {f}<{p}>(L.m(0))")
        add(f"{f}_{nm}_x", f"m0[n,n]:{d} s0:real", tag, f"L.template {f}<{p}>(L.m(0)) * sin(L.s(0)) + L.s(0)")
        add(f"{f}_{nm}_scaled", f"m0[n,n]:{d} s0:pos", tag, f"L.template {f}<{p}>(L.m(0) * L.s(0))")
        add(f"{f}_{nm}_ph", f"m0[n,n]:{d} s0:real s1:ph", tag + " ph", f"(L.s(1) = L.template {f}<{p}>(L.m(0)), L.s(1) * L.s(0) + L.s(1))")
        add(f"{f}_{nm}_k", f"km0[n,n]:{d} m0[n,n]:{d} s0:real", tag + " const view", f"L.template {f}<{p}>(L.km(0) + L.m(0)) * L.s(0)")
        add(f"{f}_{nm}_c", f"cm0[n,n]:{d} m0[n,n]:{d} s0:real", tag + " const", f"L.template {f}<{p}>(L.cm(0)) * L.s(0)")
add("det_dot", "m0[n,n]:gen", "core det full", "L.template det<0>(dot(transpose(L.m(0)), L.m(0)))")
add("det_two", "m0[n,n]:gen m1[n,n]:gen", "core det full", "L.template det<0>(L.m(0)) * L.template log_det<0>(L.m(1)) - L.template det<0>(L.m(1))")

# ---- placeholders and sequencing -------------------------------------------------------------------
RHS_S = dict(
    un=("sin(L.s(0))", "s0:real"), bin=("L.s(0) * L.s(1)", "s0:real s1:real"), binc=("L.s(0) * L.cs(0)", "s0:real cs0:real"),
    pow=("L.template pow<2>(L.s(0))", "s0:real"), powz=("L.template pow<0>(L.s(0))", "s0:real"), sume=("sum(L.v(0))", "v0[n]:real"), prode=("prod(L.v(0))", "v0[n]:zmix"), prodes=("prod(L.s(0) * L.s(0))", "s0:real"),
    prodem=("prod(L.m(0))", "m0[n,k]:zmix"), sumi=("L.sum_n(L.n, [&](int i) { return L.v(0)[i] * L.s(0); })", "s0:real v0[n]:real"),
    prodi=("L.prod_n(L.n, [&](int i) { return L.v(0)[i] * L.s(0); })", "s0:real v0[n]:zmix"), norm=("norm(L.v(0))", "v0[n]:real"),
    ife=("if_else(L.s(0) < L.s(1), L.s(0) * L.s(1), sin(L.s(1)))", "s0:real s1:real"), ifl=("if_else(L.s(0) < L.s(1), L.s(0), L.s(1))", "s0:real s1:real"),
    cmp=("(L.s(0) < L.s(1))", "s0:real s1:real"),
    opeq=("(L.s(0) += L.s(1) * L.s(1))", "s0:real! s1:real"), const=("L.cs(0)", "cs0:real"),
    normal=("normal_adj_log_pdf(L.v(0), L.s(0), L.s(1))", "v0[n]:real s0:real s1:pos"),
    cauchy=("cauchy_adj_log_pdf(L.v(0), L.s(0), L.s(1))", "v0[n]:real s0:real s1:pos"),
    unif=("uniform_adj_log_pdf(L.s(0), L.s(1), L.s(2))", "s0:mid s1:lo s2:hi"),
    bern=("bernoulli_adj_log_pdf(L.v(0), L.s(0))", "v0[n]:bin s0:unit"),
    wish=("wishart_adj_log_pdf(L.m(0), L.m(1), L.cs(0))", "m0[n,n]:spd m1[n,n]:spd cs0:dof"),
    eq=("(L.s(8) = sin(L.s(0)))", "s0:real s8:ph"), glue=("(L.s(8) = sin(L.s(0)), L.s(8) * L.s(8))", "s0:real s8:ph"))
for nm, (rhs, lv) in RHS_S.items():
    stat = "stat" if nm in ("normal", "cauchy", "unif", "bern", "wish") else ""
    use = "" if "s0" in lv else " s0:real"
    z = " zeros" if "zmix" in lv else ""
    op = " opassign" if nm == "opeq" else ""
    add(f"ph_{nm}_a", f"{lv}{use} s9:ph", f"core ph {stat}{z}{op}", f"(L.s(9) = {rhs}, sin(L.s(9)) * L.s(9) + L.s(9))") if nm not in ("const",) else None
    if nm not in ("eq", "glue", "opeq", "const"):
        add(f"ph_{nm}_b", f"{lv}{use} s9:ph", f"core ph {stat}{z}", f"(L.s(9) = {rhs}, L.s(9))") if nm in ("un", "prode", "ife", "normal", "sumi", "prodi") else None
        add(f"ph_{nm}_r", f"{lv} s9:ph", f"core ph {stat}{z}", f"(L.s(9) = {rhs})") if nm in ("bin", "prode", "prodi", "ife", "cauchy", "norm", "sume") else None
RHS_V = dict(un=("sin(L.v(0))", "v0[n]:real"), bin=("L.v(0) * L.s(0)", "v0[n]:real s0:real"), binc=("L.v(0) * L.cv(0)", "v0[n]:real cv0[n]:real"), bink=("L.v(0) - L.kv(0)", "v0[n]:real kv0[n]:real"),
             dot=("dot(L.m(0), L.v(0))", "m0[n,n]:real v0[n]:real"), pow=("L.template pow<3>(L.v(0))", "v0[n]:real"), ife=("if_else(sum(L.v(0)) < 0.0, L.v(0) * 2.0, exp(L.v(0)))", "v0[n]:real"),
             ifc=("if_else(L.s(0) < 0.0, L.v(0), L.cv(0))", "s0:real v0[n]:real cv0[n]:real"),
             sumi=("L.sum_n(L.k, [&](int i) { return L.v(0) * double(i + 1); })", "v0[n]:real"), prodi=("L.prod_n(L.k, [&](int i) { return L.v(0) + double(i); })", "v0[n]:zmix"),
             opeq=("(L.v(0) *= exp(L.v(1)))", "v0[n]:real! v1[n]:real"), eq=("(L.v(8) = L.v(0) * L.v(0))", "v0[n]:real v8[n]:ph"))
for nm, (rhs, lv) in RHS_V.items():
    z = " zeros" if "zmix" in lv else ""; cv = " const" if "cv0" in lv or "kv0" in lv else ""; vw = " view" if "kv0" in lv else ""
    op = " opassign" if nm == "opeq" else ""
    add(f"ph_v_{nm}", f"{lv} v9[n]:ph", f"core ph{z}{cv}{vw}{op}", f"(L.v(9) = {rhs}, sum(L.v(9) * L.v(9)) + L.v(9)[0])")
    if nm not in ("eq", "opeq"): add(f"ph_v_{nm}_r", f"{lv} v9[n]:ph", f"core ph{z}{cv}{vw}", f"(L.v(9) = {rhs}, sin(L.v(9)))")
RHS_M = dict(un=("exp(L.m(0))", "m0[n,k]:real"), bin=("L.m(0) / L.m(1)", "m0[n,k]:real m1[n,k]:nz"), dot=("dot(L.m(0), L.m(1))", "m0[n,k]:real m1[k,k]:real"), tr=("transpose(L.m(0))", "m0[k,n]:real"),
             ife=("if_else(L.s(0) > 0.0, L.m(0) * L.s(0), L.m(0) - L.s(0))", "m0[n,k]:real s0:real"))
for nm, (rhs, lv) in RHS_M.items():
    add(f"ph_m_{nm}", f"{lv} m9[n,k]:ph", "core ph", f"(L.m(9) = {rhs}, L.m(9) * L.m(9))")
    add(f"ph_m_{nm}_s", f"{lv} m9[n,k]:ph", "core ph", f"(L.m(9) = {rhs}, norm(L.m(9)) + sum(L.m(9)))")
add("ph_chain", "s0:real s1:real s7:ph s8:ph s9:ph", "core ph", "(L.s(7) = L.s(0) * L.s(1), L.s(8) = sin(L.s(7)) + L.s(7), L.s(9) = L.s(8) * L.s(7), L.s(9) * L.s(8) + L.s(0))")
add("ph_eqeq", "s0:real s1:real s8:ph s9:ph", "core ph", "(L.s(9) = (L.s(8) = L.s(0) * L.s(1)), L.s(9) * L.s(8))")
add("ph_unused", "s0:real s1:real s9:ph", "core ph", "(L.s(9) = sin(L.s(0)), L.s(1) * L.s(0))")
add("ph_seedless", "s0:real v0[n]:real v9[n]:ph", "core ph", "(L.v(9) = sin(L.v(0)) * L.s(0), L.v(9)[0] * L.v(9)[L.n - 1])")
add("ph_vv", "v0[n]:real v1[n]:real v8[n]:ph v9[n]:ph", "core ph", "(L.v(8) = L.v(0) * L.v(1), L.v(9) = L.v(8) / (L.v(8) * L.v(8) + 1.0), sum(L.v(9)) + sum(L.v(8) * L.v(0)))")
add("ph_elem", "s0:real s1:real v9[n]:ph", "core ph", "(L.v(9)[0] = L.s(0) * L.s(1), L.v(9)[0] * L.v(9)[0] + L.s(0))")
add("ph_loop", "v0[n]:real v9[n]:ph", "core ph for_each", "(L.each_n(L.n, [&](int i) { return L.v(9)[i] = sin(L.v(0)[i]) * L.v(0)[i]; }), sum(L.v(9)) * L.v(9)[0])")
add("ph_rec", "v0[n]:real s0:real v9[n]:ph", "core ph for_each", "(L.v(9)[0] = L.v(0)[0] * L.s(0), L.each_n(L.n - 1, [&](int i) { return L.v(9)[i + 1] = L.v(9)[i] * sin(L.v(0)[i + 1]) + L.s(0); }), sum(L.v(9)))")
add("ph_diamond", "s0:real s6:ph s7:ph s8:ph s9:ph", "core ph", "(L.s(6) = exp(L.s(0) * 0.5), L.s(7) = L.s(6) * L.s(6), L.s(8) = L.s(7) - L.s(6), L.s(9) = L.s(7) * L.s(8) + L.s(6), L.s(9) * L.s(6))")
add("ph_matvec", "m0[n,k]:real v0[k]:real v9[n]:ph m9[n,k]:ph", "core ph dot", "(L.m(9) = L.m(0) * L.m(0), L.v(9) = dot(L.m(9), L.v(0)), norm(L.v(9)) + sum(L.m(9)))")
add("ph_det", "m0[n,n]:spd s0:pos m9[n,n]:ph", "core ph det llt", "(L.m(9) = L.m(0) * L.s(0), L.template log_det<2>(L.m(9)) + sum(L.m(9)))")
add("ph_rightnest", "s0:real s1:real s8:ph s9:ph", "core ph", "(L.s(9) = L.s(0) * L.s(1), (L.s(8) = L.s(9) * L.s(9), L.s(8) - L.s(9)))")
add("ph_head", "v0[n]:real v9[n]:ph", "core ph", "(L.v(9) = L.v(0) * L.v(0), sum(L.v(9).head(1) * L.v(0).tail(1)))")
add("ph_glue3v", "v0[n]:real v8[n]:ph v9[n]:ph", "core ph", "(L.v(8) = sin(L.v(0)), L.v(9) = cos(L.v(0)), L.v(8) * L.v(9))")

# ---- compound assignment (targets private and restored) -------------------------------------------------
OPS = dict(add="+=", sub="-=", mul="*=", div="/=")
for o, c in OPS.items():
    d = "nz" if o == "div" else "real"
    z = "exp(L.{}(1))" if o == "div" else "L.{}(1) * L.{}(1)"
    add(f"op_{o}_ss", f"s0:real! s1:real", "core opassign", f"(L.s(0) {c} {z.format('s','s')}, sin(L.s(0)) * L.s(0))")
    add(f"op_{o}_vv", f"v0[n]:real! v1[n]:{d}", "core opassign", f"(L.v(0) {c} {z.format('v','v')}, sum(L.v(0) * L.v(0)))")
    add(f"op_{o}_vs", f"v0[n]:real! s1:{d}", "core opassign", f"(L.v(0) {c} {z.format('s','s')}, sin(L.v(0)))")
    add(f"op_{o}_mm", f"m0[n,k]:real! m1[n,k]:{d}", "core opassign", f"(L.m(0) {c} {z.format('m','m')}, norm(L.m(0)))")
    add(f"op_{o}_ms", f"m0[n,k]:real! s1:{d}", "core opassign", f"(L.m(0) {c} {z.format('s','s')}, L.m(0) * L.m(0))")
    add(f"op_{o}_self", f"s0:nz!", "core opassign", f"(L.s(0) {c} L.s(0) * L.s(0), L.s(0) * L.s(0))")
    add(f"op_{o}_selfv", f"v0[n]:nz! s1:real", "core opassign", f"(L.v(0) {c} exp(L.v(0)) * L.s(1) + 2.0, sum(L.v(0) * L.s(1)))")
    add(f"op_{o}_root", f"s0:nz! s1:nz", "core opassign", f"(L.s(0) {c} L.s(1) * L.s(1))")
    add(f"op_{o}_rootv", f"v0[n]:nz! v1[n]:nz", "core opassign", f"(L.v(0) {c} L.v(1) * L.v(1))")
    add(f"op_{o}_const", f"v0[n]:nz! cv0[n]:nz s1:real", "core opassign const", f"(L.v(0) {c} L.cv(0), sum(L.v(0)) * L.s(1))")
add("op_twice", "s0:real! s1:real", "core opassign", "(L.s(0) += L.s(1) * L.s(1), L.s(0) *= sin(L.s(0)), L.s(0) * L.s(1))")
add("op_mix3", "s0:nz! s1:nz s9:ph", "core opassign ph", "(L.s(0) *= L.s(1), L.s(9) = L.s(0) * L.s(0), L.s(0) -= L.s(9), L.s(0) * L.s(9))")
add("op_loop", "s0:real! v0[n]:real", "core opassign for_each", "(L.each_n(L.n, [&](int i) { return L.s(0) += sin(L.v(0)[i]); }), L.s(0) * L.s(0))")
add("op_loop_mul", "s0:nz! v0[n]:angle", "core opassign for_each", "(L.each_n(L.n, [&](int i) { return L.s(0) *= cos(L.v(0)[i]) + 1.5; }), L.s(0) + L.s(0) * L.v(0)[0])")
add("op_loop_self", "s0:sym1! s1:real", "core opassign for_each", "(L.each_n(L.k, [&](int) { return L.s(0) += sin(L.s(0) * L.s(1)); }), L.s(0))")
add("op_loop_v", "v0[n]:real! v1[k]:sym1", "core opassign for_each", "(L.each_n(L.k, [&](int i) { return L.v(0) *= L.v(1)[i] + 1.5; }), norm(L.v(0)))")
add("op_loop_elem", "v0[n]:nz! v1[n]:sym1 s0:real", "core opassign for_each", "(L.each_n(L.n, [&](int i) { return L.v(0)[i] /= L.v(1)[i] + 2.0; }), sum(L.v(0)) * L.s(0))")
add("op_loop_nest", "s0:real! v0[n]:sym1 v1[k]:sym1", "core opassign for_each", "(L.each_n(L.n, [&](int i) { return L.each_n(L.k, [&](int j) { return L.s(0) -= L.v(0)[i] * L.v(1)[j]; }); }), L.s(0) * L.s(0))")
add("op_eq", "s0:real! s1:real s9:ph", "core opassign ph", "(L.s(9) = (L.s(0) += L.s(1) * L.s(1)), L.s(9) * L.s(9) + L.s(0))")
add("op_eq_v", "v0[n]:real! v1[n]:real v9[n]:ph", "core opassign ph", "(L.v(9) = (L.v(0) -= sin(L.v(1))), sum(L.v(9) * L.v(9)))")
add("op_sum", "s0:real! v0[n]:zmix", "core opassign", "(L.s(0) += prod(L.v(0)), L.s(0) -= sum(L.v(0)), L.s(0) * L.s(0))")
add("op_two_targets", "s0:real! s1:real! s2:real", "core opassign", "(L.s(0) += L.s(2) * L.s(1), L.s(1) *= L.s(0), L.s(0) -= L.s(1), L.s(0) * L.s(1) + L.s(2))")
add("op_ife", "s0:real! s1:real s2:real", "core opassign ifelse", "(L.s(0) += if_else(L.s(1) < L.s(2), L.s(1) * L.s(1), sin(L.s(2))), L.s(0) * L.s(1))")

# ---- conditionals ------------------------------------------------------------------------------------
IFL = "s0:real s1:real s2:zmix"
for o, c in CMP.items():
    add(f"if_{o}", IFL, "core ifelse", f"if_else(L.s(0) {c} L.s(1), L.s(0) * L.s(2), exp(L.s(1)))")
add("if_leaf", "s0:real s1:real", "core ifelse", "if_else(L.s(0) < L.s(1), L.s(0), L.s(1))")
add("if_const", "s0:real cs0:real", "core ifelse const", "if_else(L.s(0) < 0.0, L.cs(0), L.s(0) * L.s(0))")
add("if_const2", "s0:real cs0:real cs1:real", "core ifelse const", "if_else(L.s(0) < 0.0, L.cs(0), L.cs(1)) * L.s(0)")
add("if_bare", "s0:zmix s1:real", "core ifelse zeros", "if_else(L.s(0) != 0.0, sin(L.s(1)) * L.s(0), L.s(1) * L.s(1))")
add("if_and", IFL, "core ifelse", "if_else((L.s(0) < L.s(1)) && (L.s(2) >= 0.0), L.s(0) * L.s(2), L.s(1))")
add("if_or", IFL, "core ifelse", "if_else((L.s(0) < L.s(1)) || (L.s(2) > L.s(1)), L.s(0) * L.s(2), L.s(1) - L.s(2))")
add("if_sin", IFL, "core ifelse", "sin(if_else(L.s(0) < L.s(1), L.s(0) * L.s(2), exp(L.s(1)))) * L.s(1)")
add("if_bin", IFL, "core ifelse", "if_else(L.s(0) < L.s(1), L.s(0), L.s(1)) * if_else(L.s(2) < L.s(1), L.s(2) * L.s(2), sin(L.s(1)))")
add("if_nest", IFL, "core ifelse", "if_else(L.s(0) < L.s(1), if_else(L.s(2) < L.s(1), L.s(2) * L.s(0), L.s(1)), if_else(L.s(2) > 0.0, sin(L.s(0)), L.s(1) * L.s(2)))")
add("if_cond_if", IFL, "core ifelse", "if_else(if_else(L.s(0) < L.s(1), L.s(0) * 1.0, L.s(2)) < 0.0, L.s(0) * L.s(2), L.s(1))")
add("if_vec", "s0:real v0[n]:real v1[n]:real", "core ifelse", "if_else(L.s(0) < 0.5, L.v(0) * L.v(1), sin(L.v(0)) - L.s(0))")
add("if_vec_leaf", "s0:real v0[n]:real v1[n]:real", "core ifelse", "sum(if_else(L.s(0) < 0.5, L.v(0), L.v(1)) * L.v(0))")
add("if_vec_c", "s0:real v0[n]:real cv0[n]:real", "core ifelse const", "sin(if_else(L.s(0) < 0.5, L.v(0), L.cv(0)))")
add("if_vec_k", "s0:real v0[n]:real kv0[n]:real", "core ifelse const view", "if_else(L.s(0) < 0.5, L.v(0) * 2.0, L.kv(0) * L.s(0))")
add("if_mat", "s0:real m0[n,k]:real m1[n,k]:real", "core ifelse", "norm(if_else(L.s(0) < 0.0, L.m(0), L.m(1) * L.s(0)))")
add("if_dot", "s0:real m0[n,k]:real v0[k]:real v1[k]:real", "core ifelse dot", "dot(L.m(0), if_else(L.s(0) < 0.0, L.v(0), sin(L.v(1))))")
add("if_sumelem", "v0[n]:real v1[n]:real", "core ifelse iter", "L.sum_n(L.n, [&](int i) { return if_else(L.v(0)[i] < L.v(1)[i], L.v(0)[i] * L.v(0)[i], exp(L.v(1)[i])); })")
add("if_prodelem", "v0[n]:real v1[n]:real", "core ifelse iter", "L.prod_n(L.n, [&](int i) { return if_else(L.v(0)[i] < L.v(1)[i], L.v(0)[i] + 2.0, cos(L.v(1)[i])); })")
add("if_assign", IFL + " s8:ph s9:ph", "core ifelse ph phcond", "if_else(L.s(0) < L.s(1), (L.s(8) = L.s(0) * L.s(2), L.s(8) * L.s(8)), (L.s(9) = sin(L.s(1)), L.s(9) * L.s(0)))")
add("if_op", "s0:real s1:real s2:real! s3:real", "core ifelse opassign", "if_else(L.s(0) < L.s(1), (L.s(2) += L.s(0) * L.s(3), L.s(2) * L.s(2)), L.s(1) * L.s(2))")
add("if_op_stmt", "s0:real s1:real s2:real! s3:real", "core ifelse opassign", "(L.s(2) *= if_else(L.s(0) < L.s(1), L.s(0) * 1.0, sin(L.s(3))), L.s(2) * L.s(0))")
add("if_glue", IFL + " s9:ph", "core ifelse ph", "(L.s(9) = if_else(L.s(0) < L.s(1), L.s(0) * L.s(2), exp(L.s(1))), if_else(L.s(9) < L.s(0), L.s(9) * L.s(9), L.s(9) * L.s(1)))")
add("if_last", IFL + " s9:ph", "core ifelse ph", "(L.s(9) = sin(L.s(0)), if_else(L.s(9) < L.s(1), L.s(9) * L.s(2), L.s(9)))")
add("if_bad_log", "s0:real s1:real", "core ifelse", "if_else(L.s(0) > 0.0, log(L.s(0)) * L.s(1), L.s(0) * L.s(1))")
add("if_bad_sqrt", "v0[n]:real s0:real", "core ifelse iter", "L.sum_n(L.n, [&](int i) { return if_else(L.v(0)[i] > 0.0, sqrt(L.v(0)[i]), -L.v(0)[i] * L.s(0)); })")
add("if_bad_div", "s0:zmix s1:real", "core ifelse zeros", "if_else(L.s(0) != 0.0, L.s(1) / L.s(0), L.s(1) * 3.0) + L.s(1)")
add("if_bad_det", "s0:real m0[n,n]:spd s1:real", "core ifelse det llt", "if_else(L.s(0) > 0.0, L.template log_det<2>(L.m(0)) * L.s(1), L.s(0) * sum(L.m(0)))")
add("if_bad_stat", "s0:real s1:real s2:real", "core ifelse stat", "if_else(L.s(2) > 0.0, normal_adj_log_pdf(L.s(0), L.s(1), L.s(2)), L.s(2) * L.s(0))")
add("if_root_glue", IFL + " s9:ph", "core ifelse ph", "if_else((L.s(9) = L.s(0) * L.s(1), L.s(9)) < L.s(2), L.s(0) * L.s(0), L.s(1) * L.s(2))")
P.pop()
add("if_pow", IFL, "core ifelse pow", "L.template pow<2>(if_else(L.s(0) < L.s(1), L.s(0), L.s(2) * L.s(1)))")
add("if_norm", "s0:real v0[n]:real v1[n]:real", "core ifelse norm", "norm(if_else(L.s(0) < 0.0, L.v(0), L.v(1)))")
add("if_prod", "s0:real v0[n]:zmix v1[n]:real", "core ifelse prod zeros", "prod(if_else(L.s(0) < 0.0, L.v(0), exp(L.v(1))))")
add("if_loop", "s0:sym1! v0[n]:real s1:real", "core ifelse opassign for_each", "(L.each_n(L.n, [&](int i) { return L.s(0) += if_else(L.v(0)[i] < L.s(0), L.v(0)[i] * L.s(1), cos(L.s(0))); }), L.s(0) * L.s(1))")

# ---- densities: every shape, every constant subset ----------------------------------------------------------
def stat(fn, doms, shapes, names, cs_allowed=None, extra=""):
    for sh in shapes:
        for mask in range(2 ** len(sh)):
            if mask == 2 ** len(sh) - 1: continue
            if cs_allowed and not cs_allowed(sh, mask): continue
            leaves, args, cn = [], [], {}
            for i, (k, d) in enumerate(zip(sh, doms)):
                kk = "m" if k == "q" else k
                dom = d if k != "q" else "spd"
                dim = "[n,n]" if (k in "qm") else None
                pre = "c" if mask >> i & 1 else ""
                key = pre + kk; idx = cn.get(key, 0); cn[key] = idx + 1
                a, x = lf(kk, idx, dom, pre, dim)
                leaves.append(a); args.append(x)
            nm = f"{names}_{sh}_" + "".join("c" if mask >> i & 1 else "v" for i in range(len(sh)))
            tags = f"stat {names}" + (" const" if mask else "") + (" matsig" if "q" in sh else "") + extra
            add(nm, " ".join(leaves), tags, f"{fn}({', '.join(args)})")
SHP3 = ["sss", "vss", "vsv", "vvs", "vvv"]
stat("normal_adj_log_pdf", ("real", "real", "pos"), SHP3, "normal")
stat("normal_adj_log_pdf", ("real", "real", "spd"), ["vsq", "vvq"], "normal")
stat("cauchy_adj_log_pdf", ("real", "real", "pos"), SHP3, "cauchy")
stat("uniform_adj_log_pdf", ("mid", "lo", "hi"), SHP3, "uniform")
stat("bernoulli_adj_log_pdf", ("bin", "unit"), ["ss", "vs", "vv"], "bernoulli")
stat("wishart_adj_log_pdf", ("spd", "spd", "dof"), ["mms"], "wishart", lambda sh, m: m & 4)
add("st_normal_x", "v0[n]:real s0:real s1:real v1[n]:real", "stat normal", "normal_adj_log_pdf(L.v(0) * L.s(0), sin(L.v(1)), exp(L.s(1))) * L.s(0)")
add("st_normal_xm", "v0[n]:real m0[n,n]:spd s1:pos", "stat normal matsig", "normal_adj_log_pdf(sin(L.v(0)), L.v(0) * 2.0, L.m(0) * L.s(1))")
add("st_cauchy_x", "v0[n]:real s0:real s1:real v1[n]:real", "stat cauchy", "cauchy_adj_log_pdf(L.v(0) + L.s(0), L.v(1) * L.s(1), exp(L.v(1))) * L.s(1)")
add("st_unif_x", "v0[n]:mid s0:real s1:pos", "stat uniform", "uniform_adj_log_pdf(L.v(0), -exp(L.s(0)) - 1.0, L.s(1) + 1.0) * L.s(0)")
add("st_bern_x", "v0[n]:bin v1[n]:real", "stat bernoulli", "bernoulli_adj_log_pdf(L.v(0), sigmoid(L.v(1)))")
add("st_bern_cx", "cv0[n]:bin cm0[n,k]:real v0[k]:real", "stat bernoulli const", "bernoulli_adj_log_pdf(L.cv(0), sigmoid(dot(L.cm(0), L.v(0))))")
add("st_wish_x", "m0[n,n]:spd m1[n,n]:spd s0:pos cs0:dof", "stat wishart", "wishart_adj_log_pdf(L.m(0) * L.s(0), L.m(1) / L.s(0), L.cs(0))")
add("st_sum", "v0[n]:real s0:real s1:pos s2:pos", "stat normal cauchy", "normal_adj_log_pdf(L.v(0), L.s(0), L.s(1)) + cauchy_adj_log_pdf(L.s(0), 0.5, L.s(2)) - L.s(1)")
add("st_model", "cv0[n]:real cm0[n,k]:real v0[k]:real s0:pos v9[n]:ph", "stat normal ph const", "(L.v(9) = dot(L.cm(0), L.v(0)), normal_adj_log_pdf(L.cv(0), L.v(9), L.s(0)) + normal_adj_log_pdf(L.v(0), 0.0, 1.5) + uniform_adj_log_pdf(L.s(0), 0.01, 50.0))")
add("st_iter", "v0[n]:real v1[n]:pos s0:real", "stat normal iter", "L.sum_n(L.n, [&](int i) { return normal_adj_log_pdf(L.v(0)[i], L.s(0), L.v(1)[i]); })")
add("st_if", "v0[n]:real s0:real s1:pos", "stat normal cauchy ifelse", "if_else(L.s(0) < 0.0, normal_adj_log_pdf(L.v(0), L.s(0), L.s(1)), cauchy_adj_log_pdf(L.v(0), L.s(0), L.s(1)))")
add("st_allc", "cv0[n]:real cs0:real cs1:pos s0:real", "stat normal const", "normal_adj_log_pdf(L.cv(0), L.cs(0), L.cs(1)) + L.s(0)")
add("st_two", "v0[n]:real s0:real s1:pos s8:ph s9:ph", "stat normal cauchy ph", "(L.s(8) = normal_adj_log_pdf(L.v(0), L.s(0), L.s(1)), L.s(9) = cauchy_adj_log_pdf(L.v(0), L.s(0), L.s(1)), L.s(8) * 0.5 + L.s(9))")

# ---- sub-views and literal operands ---------------------------------------------------------------------
add("sub_elem", "v0[n]:real s0:real", "core sub", "L.v(0)[0] * L.v(0)(L.n - 1) + L.s(0) * L.v(0)[0]")
add("sub_head", "v0[n+k]:real v1[n]:real", "core sub", "sum(L.v(0).head(L.n) * L.v(1)) + norm(L.v(0).tail(L.k))")
add("sub_overlap", "v0[n+k]:real", "core sub", "sum(sin(L.v(0).head(L.n))) * sum(L.v(0).tail(L.n) * L.v(0).head(L.n))")
add("sub_dot", "m0[n,k]:real v0[n+k]:real", "core sub dot", "dot(L.m(0), L.v(0).head(L.k)) * L.v(0).tail(L.n)")
add("lit_1", "s0:nz", "core lit", "2.0 * L.s(0) + 3.0 / L.s(0) - (1.0 - L.s(0)) * 0.5")
add("lit_v", "v0[n]:nz", "core lit", "2.0 * L.v(0) + 3.0 / L.v(0) - (1.0 - L.v(0)) * 0.5")
add("lit_m", "m0[n,k]:nz", "core lit", "sum(2.0 / L.m(0) - (1.0 - L.m(0)) * 0.5)")
# ---- documented examples ------------------------------------------------------------------------------
add("ex_readme1", "s0:real s1:real s2:ph", "core ph example", "(L.s(2) = L.s(0) * sin(L.s(1)), L.s(2) + L.s(2) * L.s(2))")
add("ex_readme2", "v0[n]:real v1[n]:real v9[n]:ph", "core ph example", "(L.v(9) = L.v(0) * sin(L.v(1)), sum(L.v(9)) * 2.0)")
add("ex_nn", "cm0[n,k]:real m0[k,n]:real v0[n]:real s0:real", "core dot const example", "norm(tanh(dot(dot(L.cm(0), L.m(0)), L.v(0))) - L.s(0))")
add("ex_bs_call", "s0:pos cs0:pos cs1:pos s1:pos s8:ph s9:ph", "core ph const example",
    "(L.s(8) = (log(L.s(0) / L.cs(0)) + (0.03 + L.s(1) * L.s(1) * 0.5) * L.cs(1)) / (L.s(1) * 1.2), L.s(9) = L.s(8) - L.s(1) * 1.2, "
    "0.5 * (1.0 + erf(L.s(8) * 0.70710678)) * L.s(0) - 0.5 * (1.0 + erf(L.s(9) * 0.70710678)) * L.cs(0) * 0.97)")
add("ex_bs_ife", "s0:pos cs0:pos s1:pos s9:ph", "core ph const ifelse example",
    "(L.s(9) = log(L.s(0) / L.cs(0)) / L.s(1), if_else(L.s(9) > 0.0, L.s(0) * erf(L.s(9)), L.cs(0) * erf(-L.s(9))))")
add("ex_logreg", "cm0[n,k]:real cv0[n]:bin v0[k]:real s0:real", "stat bernoulli const example", "bernoulli_adj_log_pdf(L.cv(0), sigmoid(dot(L.cm(0), L.v(0)) + L.s(0))) + normal_adj_log_pdf(L.v(0), 0.0, 2.0)")
add("ex_stream", "km0[n,k]:real kv0[n]:real v0[k]:real s0:pos", "core dot const view example", "norm(L.kv(0) - dot(L.km(0), L.v(0))) / L.s(0) + log(L.s(0))")
add("vw_exp", "kv0[n]:real v0[n]:real", "core const view", "exp(L.kv(0) * L.v(0)) + L.kv(0)")
add("vw_two", "kv0[n]:real kv1[n]:real v0[n]:real s0:real", "core const view", "sum((L.kv(0) - L.v(0)) * (L.kv(1) * L.s(0)))")
add("vw_ph", "kv0[n]:real v0[n]:real v9[n]:ph", "core const view ph", "(L.v(9) = L.kv(0) * L.v(0), norm(L.v(9)))")
add("vw_m", "km0[n,k]:real m0[n,k]:real s0:real", "core const view", "norm(L.km(0) - L.m(0) * L.s(0))")
add("vw_if", "kv0[n]:real v0[n]:real s0:real", "core const view ifelse", "if_else(sum(L.kv(0) * L.v(0)) < L.s(0), sum(L.kv(0) * L.v(0)), L.s(0) * L.s(0))")
add("vw_loop", "kv0[n]:real v0[n]:real", "core const view iter", "L.sum_n(L.k, [&](int i) { return sum(L.kv(0) * L.v(0)) * double(i + 1); })")

# ---- an assignment as the operand of every kind of node, used again later (or not used at all) --------------------
AS, AV, AM = "(L.s(9) = L.s(0) * L.s(1))", "(L.v(9) = L.v(0) * L.v(1))", "(L.m(9) = L.m(0) * L.m(1))"
LS_, LV_, LM_ = "s0:real s1:real s9:ph", "v0[n]:real v1[n]:real v9[n]:ph", "m0[n,k]:real m1[n,k]:real m9[n,k]:ph"
NEST_S = dict(un=f"sin({AS})", neg=f"-{AS}", unun=f"exp(sin({AS}))", binl=f"{AS} * L.s(0)", binr=f"L.s(1) - {AS}", addl=f"{AS} + L.s(0)", binself=f"{AS} * L.s(9)", div=f"L.s(0) / ({AS} * L.s(9) + 1.5)",
    pow=f"L.template pow<3>({AS})", pow0=f"L.template pow<0>({AS})", pow1=f"L.template pow<1>({AS})", sume=f"sum({AS})", prode=f"prod({AS})", ifb=f"if_else(L.s(0) < L.s(1), {AS}, L.s(0))", ife=f"if_else(L.s(0) < L.s(1), L.s(1), {AS})",
    cmp=f"({AS} < L.s(0))", sumi=f"L.sum_n(2, [&](int i) {{ return L.s(9 - i) = L.s(i) * L.s(1 - i); }})", prodi=f"L.prod_n(2, [&](int i) {{ return L.s(9 - i) = L.s(i) * L.s(1 - i); }})")
for nm, e in NEST_S.items():
    lv = LS_ + (" s8:ph" if nm in ("sumi", "prodi") else ""); z = " iter" if nm in ("sumi", "prodi") else ""; z += " ifelse phcond" if nm in ("ifb", "ife") else ""
    if nm == "cmp": add(f"nest_s_{nm}", lv, "core ph", f"{e} * L.s(0)"); continue
    if nm not in ("ifb", "ife"): add(f"nest_s_{nm}_u", lv, f"core ph nest{z}", f"({e}, L.s(9) * L.s(9) + L.s(0))")
    add(f"nest_s_{nm}_r", lv, f"core ph nest{z}", e + (f" * L.s(1)" if nm not in ("neg",) else ""))
NEST_V = dict(un=f"cos({AV})", unun=f"sin(exp({AV}))", binl=f"{AV} * L.v(0)", binr=f"L.v(1) - {AV}", sv=f"L.v(1)[0] * {AV}", vs=f"{AV} / 2.0", pow=f"L.template pow<2>({AV})", sume=f"sum({AV})", prode=f"prod({AV})", norm=f"norm({AV})",
    ifb=f"if_else(sum(L.v(0)) < 0.0, {AV}, L.v(0))", dot="dot(L.m(0), (L.v(9) = L.v(0) * L.v(1)))", dott="dot(transpose((L.v(9) = L.v(0) * L.v(1))), L.m(0))")
for nm, e in NEST_V.items():
    lv = LV_ + (" m0[n,n]:real" if "m(0)" in e else ""); z = " ifelse phcond" if nm == "ifb" else ""
    if nm != "ifb": add(f"nest_v_{nm}_u", lv, f"core ph nest{z}", f"({e}, sum(L.v(9) * L.v(9)))")
    add(f"nest_v_{nm}_r", lv, f"core ph nest{z}", f"{e} * 1.5" if nm not in ("dott",) else f"sum({e})")
NEST_M = dict(un=f"sin({AM})", bin=f"{AM} / 3.0 + L.m(0)", tr=f"transpose({AM})", trx=f"transpose(sin({AM}))", norm=f"norm({AM})", prod=f"prod({AM})", pow=f"L.template pow<1>({AM})")
for nm, e in NEST_M.items():
    add(f"nest_m_{nm}_u", LM_, "core ph nest", f"({e}, sum(L.m(9) * L.m(9)))")
    add(f"nest_m_{nm}_r", LM_, "core ph nest", f"{e} * 2.0" if nm != "tr" else f"sum({e} * 2.0)")
add("nest_dotm", "m0[n,n]:real v0[n]:real m9[n,n]:ph", "core ph nest dot", "(dot((L.m(9) = L.m(0) * L.m(0)), L.v(0)), dot(L.m(9), L.v(0)))")
add("nest_eqeq", "s0:real s1:real s8:ph s9:ph", "core ph nest", "((L.s(9) = sin((L.s(8) = L.s(0) * L.s(1)))), L.s(8) * L.s(9))")
add("nest_eqeq_u", "s0:real s1:real s8:ph s9:ph", "core ph nest", "((L.s(9) = sin((L.s(8) = L.s(0) * L.s(1)))), L.s(8) * L.s(8))")
add("nest_glue", "s0:real s1:real s8:ph s9:ph", "core ph nest", "(cos((L.s(8) = L.s(0) * 2.0, L.s(9) = L.s(8) * L.s(1), L.s(9))) * L.s(0), L.s(8) * L.s(9))")
add("nest_each", "v0[n]:real v9[n]:ph s0:real", "core ph nest for_each", "(L.each_n(L.n, [&](int i) { return sin((L.v(9)[i] = L.v(0)[i] * L.s(0))); }), sum(L.v(9) * L.v(9)))")
add("nest_sumi_v", "v0[n]:real v9[n]:ph s0:real", "core ph nest iter", "(L.sum_n(L.n, [&](int i) { return (L.v(9)[i] = L.v(0)[i] * L.s(0)) * L.s(0); }), sum(L.v(9) * L.v(9)))")
add("nest_prodi_v", "v0[n]:real v9[n]:ph s0:real", "core ph nest iter", "(L.prod_n(L.n, [&](int i) { return exp((L.v(9)[i] = L.v(0)[i] * L.s(0))); }), sum(L.v(9) * L.v(9)))")
add("nest_op_un", "s0:real! s1:real", "core opassign nest", "(sin((L.s(0) += L.s(1) * L.s(1))), L.s(0) * L.s(0))")
add("nest_op_bin", "s0:real! s1:real", "core opassign nest", "((L.s(0) *= L.s(1) * L.s(1)) * L.s(1), L.s(0) * L.s(0) + L.s(1))")
add("nest_op_v", "v0[n]:real! v1[n]:real", "core opassign nest", "(norm((L.v(0) -= sin(L.v(1)))), sum(L.v(0) * L.v(0)))")
add("nest_op_vu", "v0[n]:nz! v1[n]:real", "core opassign nest", "(exp((L.v(0) /= exp(L.v(1)))), L.v(0) * L.v(0))")
# ---- iterated nodes whose terms have different sizes -----------------------------------------------------------
for nm, cnt, hd in (("up", "L.n", "head(i + 1)"), ("down", "L.n", "head(L.n - i)"), ("tail", "L.n", "tail(i + 1)"), ("taild", "L.n", "tail(L.n - i)")):
    add(f"het_sum_{nm}", "v0[n]:real v1[n]:real s0:real", "core sum iter het", f"L.sum_n({cnt}, [&](int i) {{ return sum(exp(L.v(0).{hd}) * L.v(1).{hd}) * L.s(0); }})")
    add(f"het_prod_{nm}", "v0[n]:real v1[n]:real", "core prod iter het", f"L.prod_n({cnt}, [&](int i) {{ return norm(sin(L.v(0).{hd}) - L.v(1).{hd}) + 1.0; }}) * L.v(0)[0]")
    add(f"het_each_{nm}", "v0[n]:real v1[n]:real v9[n]:ph", "core ph for_each het", f"(L.each_n({cnt}, [&](int i) {{ return L.v(9)[i] = prod(L.v(0).{hd} * cos(L.v(1).{hd})); }}), sum(L.v(9) * L.v(0)))")
    add(f"het_vec_{nm}", "v0[n]:real v1[n]:real v2[k]:real", "core sum iter het", f"L.sum_n({cnt}, [&](int i) {{ return L.v(2) * sum(sin(L.v(0).{hd}) * L.v(1).{hd}); }})")
add("het_norm_each", "v0[n]:real v9[n]:ph s0:real", "core ph for_each het", "(L.each_n(L.n, [&](int i) { return L.v(9)[i] = norm(L.v(0).head(i + 1)) * L.s(0); }), L.s(0) * sum(L.v(9)))")
add("het_nest", "v0[n]:real v1[k]:real", "core sum iter het", "L.sum_n(L.n, [&](int i) { return L.prod_n(i + 1, [&](int j) { return sin(L.v(0)[j]) + 1.5; }) * norm(L.v(1)); })")
add("het_op", "v0[n]:real! v1[n]:real", "core opassign for_each het", "(L.each_n(L.n, [&](int i) { return L.v(0)[i] += sum(sin(L.v(1).head(i + 1)) * L.v(1).tail(i + 1)); }), sum(L.v(0) * L.v(1)))")
add("het_sub", "v0[n]:real v9[n]:ph s0:real", "core ph for_each het", "(L.each_n(L.n, [&](int i) { return L.v(9).head(L.n - i) = L.v(0).tail(L.n - i) * L.s(0); }), L.v(9)[L.n - 1] * L.s(0))")
P.pop()     # reassigns one placeholder: not a supported use
add("het_stat", "v0[n]:real s0:real s1:pos", "stat normal iter het", "L.sum_n(L.n, [&](int i) { return normal_adj_log_pdf(L.v(0).head(i + 1), L.s(0), L.s(1)); })")
add("het_if", "v0[n]:real v1[n]:real", "core ifelse iter het", "L.sum_n(L.n, [&](int i) { return if_else(L.v(0)[i] < L.v(1)[i], sum(sin(L.v(0).head(i + 1)) * L.v(1).head(i + 1)), norm(L.v(1).tail(L.n - i))); })")
# ---- no terms at all --------------------------------------------------------------------------------------
add("emp_sum", "s0:real v0[n]:real", "core sum iter empty", "L.sum_n(0, [&](int i) { return L.v(0)[i] * L.s(0); }) + L.s(0)")
add("emp_prod", "s0:real v0[n]:real", "core prod iter empty", "L.prod_n(0, [&](int i) { return L.v(0)[i] * L.s(0); }) * L.s(0)")
add("emp_leaf", "s0:real v0[n]:real", "core sum iter empty", "(L.sum_n(0, [&](int i) { return L.v(0)[i]; }) + 1.0) * L.s(0) * L.prod_n(0, [&](int i) { return L.v(0)[i]; })")
add("emp_nest", "s0:real v0[n]:real", "core sum prod iter empty het", "L.sum_n(L.n, [&](int i) { return L.prod_n(i, [&](int j) { return L.v(0)[j] + L.s(0); }) + L.sum_n(L.n - 1 - i, [&](int j) { return L.v(0)[j] * L.s(0); }); })")
add("emp_root", "s0:real v0[n]:real", "core sum iter empty", "L.sum_n(0, [&](int i) { return sin(L.v(0)[i]) * L.s(0); })")
add("emp_proot", "s0:real v0[n]:real", "core prod iter empty", "L.prod_n(0, [&](int i) { return sin(L.v(0)[i]) * L.s(0); })")
add("emp_ph", "s0:real v0[n]:real s9:ph", "core sum iter empty ph", "(L.s(9) = L.sum_n(0, [&](int i) { return L.v(0)[i] * L.s(0); }), exp(L.s(9)) * L.s(0))")
add("emp_php", "s0:real v0[n]:real s9:ph", "core prod iter empty ph", "(L.s(9) = L.prod_n(0, [&](int i) { return L.v(0)[i] * L.s(0); }), exp(L.s(9)) * L.s(0))")
add("emp_each", "s0:real v0[n]:real v9[n]:ph", "core for_each empty ph", "(L.each_n(0, [&](int i) { return L.v(9)[i] = L.v(0)[i] * L.s(0); }), L.s(0) * sum(L.v(0)))")
add("emp_if", "s0:real v0[n]:real", "core ifelse iter empty", "if_else(L.s(0) < 0.0, L.sum_n(0, [&](int i) { return L.v(0)[i] * L.s(0); }), L.s(0) * L.v(0)[0])")
# ---- a branch that changes what its condition reads ------------------------------------------------------------
for o, c in OPS.items():
    add(f"ifc_{o}", "s0:nz! s1:nz", "core ifelse opassign", f"if_else(L.s(0) < 0.5, (L.s(0) {c} L.s(1) * L.s(1) + 0.2), L.s(0) * L.s(1))")
    add(f"ifc_{o}_g", "s0:nz! s1:nz", "core ifelse opassign", f"if_else(L.s(0) * L.s(1) < 0.5, (L.s(0) {c} L.s(1) * L.s(1) + 0.2, sin(L.s(0)) * L.s(1)), (L.s(0) {c} L.s(1), L.s(0) * L.s(0)))")
add("ifc_v", "v0[n]:real! v1[n]:real", "core ifelse opassign", "if_else(sum(L.v(0)) < 0.0, (L.v(0) -= exp(L.v(1)) * 4.0), L.v(0) * L.v(1))")
add("ifc_v2", "v0[n]:real! v1[n]:real s0:real", "core ifelse opassign", "if_else(L.v(0)[0] < L.s(0), (L.v(0) += exp(L.v(1)) * 4.0, sum(L.v(0) * L.v(0))), norm(L.v(1)))")
add("ifc_bare", "s0:zmix! s1:real", "core ifelse opassign zeros barecond", "if_else(L.s(0), (L.s(0) -= L.s(0) * 1.0, L.s(0) * L.s(1) + L.s(1)), L.s(1) * L.s(1))")
add("ifc_bare2", "s0:zmix! s1:real", "core ifelse opassign zeros barecond", "if_else(L.s(0), L.s(0) * L.s(1), (L.s(0) += L.s(1) * 2.0, L.s(0) * L.s(0)))")
add("ifb_bare", "s0:zmix s1:real", "core ifelse zeros", "if_else(L.s(0), sin(L.s(1)) * L.s(0), L.s(1) * L.s(1))")
add("ifb_expr", "s0:zmix s1:real", "core ifelse zeros", "if_else(L.s(0) * L.s(0), sin(L.s(1)) * L.s(0), L.s(1) * L.s(1))")
add("ifb_elem", "v0[n]:zmix s1:real", "core ifelse zeros", "if_else(L.v(0)[0], sum(L.v(0)) * L.s(1), L.s(1) * L.s(1))")
add("ifb_const", "cs0:bin s1:real s0:real", "core ifelse const", "if_else(L.cs(0), L.s(0) * L.s(1), sin(L.s(1)))")
add("ifc_then", "s0:real! s1:real s9:ph", "core ifelse opassign ph", "(L.s(9) = if_else(L.s(0) < L.s(1), L.s(0) * L.s(1), sin(L.s(0))), L.s(0) += L.s(1) + 3.0, L.s(9) * L.s(0))")
add("ifc_eq", "s0:real! s1:real s9:ph", "core ifelse opassign ph", "(L.s(9) = if_else(L.s(0) < L.s(1), (L.s(0) += 3.0 + L.s(1) * L.s(1)), sin(L.s(0))), L.s(9) * L.s(0))")
add("ifc_sum", "s0:real! s1:real v0[n]:real", "core ifelse opassign", "(L.s(0) += L.s(1) * 2.0, if_else(L.s(0) < 0.0, (L.s(0) *= sin(L.s(1)), sum(L.v(0)) * L.s(0)), (L.s(0) -= L.s(1) * 3.0, L.s(0) * L.s(0))))")

# ---- constants, views and literals as assigned values; longer chains; integer literals ------------------------------
add("pk_s", "s0:real cs0:real s9:ph", "core ph const", "(L.s(9) = L.cs(0), L.s(9) * L.s(0) + L.s(9))")
add("pk_v", "v0[n]:real cv0[n]:real v9[n]:ph", "core ph const", "(L.v(9) = L.cv(0), L.v(9) * L.v(0) - L.v(9))")
add("pk_m", "m0[n,k]:real cm0[n,k]:real m9[n,k]:ph", "core ph const", "(L.m(9) = L.cm(0), norm(L.m(9) * L.m(0)))")
add("pk_kv", "v0[n]:real kv0[n]:real v9[n]:ph", "core ph const view", "(L.v(9) = L.kv(0), sum(L.v(9) * L.v(0)) * sum(L.v(9)))")
add("pk_km", "m0[n,k]:real km0[n,k]:real m9[n,k]:ph", "core ph const view", "(L.m(9) = L.km(0), sum(L.m(9) * L.m(0)))")
add("pk_lit", "s0:real s9:ph", "core ph lit", "(L.s(9) = 2.5, L.s(9) * L.s(0) + L.s(9))")
add("pk_ccs", "s0:real cs0:real cs1:nz s9:ph", "core ph const", "(L.s(9) = L.cs(0) / L.cs(1), L.s(9) * sin(L.s(0)))")
add("pk_elem", "v0[n]:real cs0:real v9[n]:ph", "core ph const for_each", "(L.each_n(L.n, [&](int i) { return L.v(9)[i] = L.cs(0); }), sum(L.v(9) * L.v(0)))")
add("pk_sum", "s0:real cv0[n]:real s9:ph", "core ph const sum", "(L.s(9) = sum(L.cv(0)) * L.s(0), L.s(9) * L.s(9))")
add("pk_mix", "s0:real cs0:real s8:ph s9:ph", "core ph const", "(L.s(8) = L.cs(0), L.s(9) = L.s(8) * L.s(0), L.s(9) * L.s(8))")
add("pk_if", "s0:real cs0:real cs1:real s9:ph", "core ph const ifelse", "(L.s(9) = if_else(L.s(0) < 0.0, L.cs(0), L.cs(1)), L.s(9) * L.s(0))")
for o, c in OPS.items():
    add(f"opk_{o}_s", "s0:nz! cs0:nz s1:real", "core opassign const", f"(L.s(0) {c} L.cs(0), L.s(0) * L.s(1))")
    add(f"opk_{o}_lit", "s0:nz! v0[n]:nz! s1:real", "core opassign lit", f"(L.s(0) {c} 1.5, L.v(0) {c} 0.75, sum(L.v(0)) * L.s(0) * L.s(1))")
    add(f"opk_{o}_kv", "v0[n]:nz! kv0[n]:nz s1:real", "core opassign const view", f"(L.v(0) {c} L.kv(0), norm(L.v(0)) * L.s(1))")
    add(f"opk_{o}_m", "m0[n,k]:nz! cm0[n,k]:nz s1:real", "core opassign const", f"(L.m(0) {c} L.cm(0), sum(L.m(0) * L.m(0)) * L.s(1))")
    add(f"opk_{o}_vcs", "v0[n]:nz! cs0:nz s1:real", "core opassign const", f"(L.v(0) {c} L.cs(0), sum(L.v(0) * L.v(0)) * L.s(1))")
    add(f"opk_{o}_fk", "v0[n]:nz! kv0[n]:nz s1:real", "core opassign const view for_each", f"(L.each_n(L.n, [&](int i) {{ return L.v(0)[i] {c} exp(L.s(1) * 0.5); }}), sum(L.v(0) * L.kv(0)))")
    add(f"opk_{o}_alt", "s0:nz! s2:nz! s1:real", "core opassign", f"(L.s(0) {c} exp(L.s(2)), L.s(2) {c} exp(sin(L.s(1))), L.s(0) {c} 2.0 + sin(L.s(1)), L.s(0) * L.s(2))")
add("chain_s", "s0:real s1:real s4:ph s5:ph s6:ph s7:ph s8:ph s9:ph", "core ph",
    "(L.s(4) = L.s(0) * L.s(1), L.s(5) = sin(L.s(4)) + L.s(0), L.s(6) = L.s(5) * L.s(4), L.s(7) = exp(sin(L.s(6))), L.s(8) = L.s(7) - L.s(5) * L.s(6), L.s(9) = L.s(8) * L.s(4), L.s(9) + L.s(7))")
add("chain_v", "v0[n]:real s0:real v6[n]:ph v7[n]:ph v8[n]:ph v9[n]:ph s9:ph", "core ph",
    "(L.v(6) = L.v(0) * L.s(0), L.v(7) = sin(L.v(6)), L.s(9) = sum(L.v(7)), L.v(8) = L.v(7) - L.s(9), L.v(9) = L.v(8) * L.v(6), sum(L.v(9) * L.v(8)))")
add("chain_m", "m0[n,n]:real v0[n]:real m8[n,n]:ph m9[n,n]:ph v8[n]:ph v9[n]:ph", "core ph dot transpose",
    "(L.m(8) = sin(L.m(0)), L.m(9) = dot(L.m(8), transpose(L.m(8))), L.v(8) = dot(L.m(9), L.v(0)), L.v(9) = L.v(8) - L.v(0), norm(L.v(9)))")
add("chain_each", "v0[n]:real v8[n]:ph v9[n]:ph s9:ph", "core ph for_each iter",
    "(L.each_n(L.n, [&](int i) { return L.v(8)[i] = sin(L.v(0)[i]); }), L.each_n(L.n, [&](int i) { return L.v(9)[i] = L.v(8)[i] * L.v(8)[L.n - 1 - i]; }), L.s(9) = L.sum_n(L.n, [&](int i) { return L.v(9)[i] * L.v(8)[i]; }), L.s(9) * L.s(9))")
add("chain_rec", "s0:sym1 v9[n]:ph s1:real", "core ph for_each", "(L.v(9)[0] = sin(L.s(0)), L.each_n(L.n - 1, [&](int i) { return L.v(9)[i + 1] = L.v(9)[i] * L.s(0) + L.s(1); }), L.v(9)[L.n - 1])")
add("chain_dead", "s0:real s1:real s7:ph s8:ph s9:ph", "core ph", "(L.s(7) = L.s(0) * L.s(0), L.s(8) = sin(L.s(7)), L.s(9) = L.s(1) * L.s(1), L.s(9) * L.s(1))")
add("chain_op", "s0:real! s5:real! s1:real s9:ph", "core ph opassign", "(L.s(0) += L.s(1), L.s(9) = L.s(0) * L.s(1), L.s(5) -= L.s(9) * L.s(0), L.s(0) *= 0.5, L.s(5) * L.s(0) + L.s(9))")
add("int_1", "s0:nz v0[n]:real", "core lit", "(L.s(0) * 3 - 1) / 2 + sum(L.v(0) * 2 + 1)")
add("int_if", "s0:real s1:real", "core lit ifelse", "if_else(L.s(0) > 0, L.s(0) * 2, L.s(1) * 3 - 1)")
add("int_stat", "v0[n]:real s0:real", "stat normal lit", "normal_adj_log_pdf(L.v(0), 0, 2) + cauchy_adj_log_pdf(L.s(0), 1, 3) + uniform_adj_log_pdf(L.s(0), -5, 5)")

# one subexpression object used in several places; expressions kept in user containers; other iterators
def reuse(pre, body): return "([&] { auto e = " + pre + "; return " + body + "; }())"
add("reuse_s", "s0:real s1:real", "core reuse", reuse("sin(L.s(0)) * L.s(1)", "e * e + e"))
add("reuse_s3", "s0:pos s1:real", "core reuse", reuse("log(L.s(0) + 1.0)", "(e - L.s(1)) / (e * e + 1.0) + e * L.s(0)"))
add("reuse_v", "v0[n]:real s0:real", "core reuse", reuse("L.v(0) * L.s(0)", "sum(sin(e)) + sum(dot(transpose(e), e)) + norm(e + 1.0) * L.s(0)"))
add("reuse_v2", "v0[n]:real v1[n]:pos", "core reuse", reuse("exp(L.v(0) / 2.0) + L.v(1)", "e * e / (e + 1.0) - e"))
add("reuse_m", "m0[n,k]:real v0[k]:real", "core reuse dot", reuse("sin(L.m(0))", "sum(e * L.m(0)) + sum(dot(e, L.v(0))) + sum(dot(transpose(e), e))"))
add("reuse_dot", "m0[n,k]:real v0[k]:real", "core reuse dot", reuse("dot(L.m(0), L.v(0))", "dot(transpose(e), e) * sum(e)"))
add("reuse_red", "v0[n]:real s0:real", "core reuse", reuse("sum(L.v(0) * L.v(0))", "sqrt(e + 1.0) + e * L.s(0) + L.v(0) / (e + 1.0)"))
add("reuse_prod", "v0[n]:zmix s0:real", "core reuse zeros", reuse("prod(L.v(0))", "e + e * L.s(0) + e * e"))
add("reuse_it", "v0[n]:real s0:real", "core reuse iter", reuse("L.sum_n(L.n, [&](int i) { return L.v(0)[i] * L.s(0); })", "e * e - e"))
add("reuse_if", "s0:real s1:real s2:pos", "core reuse ifelse", reuse("if_else(L.s(0) < L.s(1), L.s(0) * L.s(2), log(L.s(2)) * L.s(1))", "e * e + e"))
add("reuse_if2", "s0:real s1:real v0[n]:real v1[n]:pos", "core reuse ifelse", reuse("(L.s(0) < L.s(1))", "sum(if_else(e, L.v(0) * L.s(0), log(L.v(1)))) + if_else(e, L.s(1), L.s(0) * L.s(0))"))
add("reuse_stat", "v0[n]:real s0:real s1:pos", "stat normal reuse", reuse("normal_adj_log_pdf(L.v(0), L.s(0), L.s(1))", "e + e * 0.5 + L.s(0)"))
add("reuse_stat2", "v0[n]:real s0:real s1:pos s2:pos", "stat normal cauchy uniform reuse", reuse("sin(L.s(0)) * L.s(1)", "normal_adj_log_pdf(L.v(0), e, L.s(2)) + cauchy_adj_log_pdf(e, L.s(0), L.s(2)) + uniform_adj_log_pdf(e, L.s(0) - 20.0, e + L.s(2))"))
add("reuse_det", "m0[n,n]:gen s0:pos", "core det reuse", reuse("L.m(0) * L.s(0)", "L.template det<0>(e) + sum(e) * L.template det<0>(e)"))
add("reuse_det2", "m0[n,n]:spd s0:pos", "core det reuse", reuse("L.template log_det<2>(L.m(0) * L.s(0))", "e * e + e"))
add("reuse_ph", "s0:real s1:real s9:ph", "core ph reuse", reuse("sin(L.s(0)) * L.s(1)", "(L.s(9) = e, L.s(9) * e + L.s(9) * L.s(9))"))
add("reuse_phv", "v0[n]:real s1:real v9[n]:ph", "core ph reuse", reuse("(L.v(9) = L.v(0) * L.s(1))", "(e, sum(L.v(9) * L.v(9)) * L.s(1))"))
add("reuse_c", "cv0[n]:real v0[n]:real", "core const reuse", reuse("L.cv(0)", "sum(e * L.v(0)) + sum(L.v(0) / (e * e + 1.0))"))
add("reuse_k", "kv0[n]:real v0[n]:real s0:real", "core const view reuse", reuse("L.kv(0) * L.s(0)", "sum(e * L.v(0)) + sum(dot(transpose(e), L.v(0)))"))
add("reuse_deep", "v0[n]:real s0:real s1:nz", "core reuse", "([&] { auto a = L.v(0) * L.s(0); auto b = a + L.s(1); auto c = sin(b) * a; return sum(c) + sum(dot(transpose(a), b)) * sum(b) / L.s(1); }())")
add("iter_list", "v0[n]:real s0:real", "core iter", "L.sum_list(L.n, [&](int i) { return L.v(0)[i] * L.s(0); }) + L.prod_list(L.n, [&](int i) { return L.v(0)[i] + L.s(0); })")
add("iter_rev", "v0[n]:zmix s0:real", "core iter zeros", "L.prod_rev(L.n, [&](int i) { return L.v(0)[i] * L.s(0); }) + L.sum_rev(L.n, [&](int i) { return sin(L.v(0)[i]); })")
add("iter_vrev", "v0[n]:real v1[k]:real", "core iter", "L.sum_rev(L.k, [&](int i) { return L.v(0) * L.v(1)[i]; }) * L.prod_list(2, [&](int i) { return i ? sin(L.v(0)) : cos(L.v(0)) ; })" if False else "L.sum_rev(L.k, [&](int i) { return L.v(0) * L.v(1)[i]; }) + L.prod_list(L.k, [&](int i) { return sin(L.v(0)) + L.v(1)[i]; })")
add("iter_each", "v0[n]:real s0:real v9[n]:ph", "core ph for_each iter", "(L.each_rev(L.n, [&](int i) { return L.v(9)[i] = L.v(0)[i] * L.s(0); }), sum(L.v(9) * L.v(9)))")
add("iter_each_l", "v0[n]:real s0:real s9:ph", "core ph for_each iter", "(L.s(9) = L.s(0) * 1.0, L.each_list(L.n, [&](int i) { return L.v(0)[i] * L.s(9); }) * L.s(9))")

# recorded findings: an assignment nested in an argument of a density or determinant (see DESIGN.md)
add("find_det", "m0[n,n]:gen s0:pos m9[n,n]:ph", "core ph det finding", "(L.template det<0>(L.m(9) = L.m(0) * L.s(0)), sum(L.m(9)))")
add("find_log_det", "m0[n,n]:spd s0:pos m9[n,n]:ph", "core ph det finding", "(L.template log_det<2>(L.m(9) = L.m(0) * L.s(0)), sum(L.m(9)))")
add("find_stat", "s0:real s1:real s9:ph", "core ph stat finding", "(normal_adj_log_pdf(L.s(0), 0.0, L.s(9) = exp(L.s(1))), L.s(9) * L.s(9))")
add("find_stat_out", "s0:pos s1:real s8:ph s9:ph", "core ph stat finding", "(L.s(8) = bernoulli_adj_log_pdf(L.s(0), L.s(9) = sin(L.s(1))), L.s(9) * L.s(9))")

P = [p for p in P if p]
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import randprogs
P += randprogs.make()

# programs that mean something when a dimension is zero
import re
def zero_ok(p):
    if any(x in p[2].split() for x in ("det", "wishart", "matsig", "finding")): return False
    if "_n(" in p[3] or re.search(r"L\.[a-z]+\(\d\)\s*[.\[(]", p[3]): return False
    return "n]" in p[1] or "k]" in p[1]
def square(p): return "[n,n]" in p[1] or "[k,k]" in p[1] or "[n+k" in p[1]
P = [(p[0], p[1], p[2] + (" z0" if zero_ok(p) else "") + (" sq" if square(p) else ""), p[3]) for p in P]

def select(expr):
    if expr == "finding": return [p for p in P if "finding" in p[2].split()]
    usual = [p for p in P if "finding" not in p[2].split()]
    if not expr or expr == "all": return usual
    want = set(expr.split(","))
    return [p for p in usual if want & set(p[2].split()) or any(w[0] == "=" and p[0].startswith(w[1:]) for w in want)]

# constant folding and literals on the left ask for an arithmetic type: not available to user scalars
NONUM = set('lit_1 lit_m lit_v ex_bs_call log_det_ldlt_c log_det_full_c log_det_llt_c det_full_c det_llt_c det_ldlt_c prod_c norm_c bin_ccs sum_c bin_uncc ifc_eq'.split())

def emit(progs, outdir, parts):
    os.makedirs(outdir, exist_ok=True)
    import hashlib
    buckets = [[] for _ in range(parts)]
    # deal by kind so that heavy programs spread evenly
    for i, p in enumerate(progs): buckets[i % parts].append(p)
    files = []
    for b, ps in enumerate(buckets):
        if not ps: continue
        txt = '#include "prog.hpp"\nusing namespace ad;\n'
        for name, leaves, tags, body in ps:
            pr = f'PROG({name}, "{name}", "{leaves}", "{tags}", ({body}))\n'
            txt += f"#ifndef NUM_SIM\n{pr}#endif\n" if name in NONUM else pr
        fn = os.path.join(outdir, f"progs{b}.cpp")
        old = open(fn).read() if os.path.exists(fn) else None
        if old != txt: open(fn, "w").write(txt)
        files.append(fn)
    return files

if __name__ == "__main__":
    if len(sys.argv) > 2: print("\n".join(emit(select(sys.argv[2]), sys.argv[1], int(sys.argv[3]))))
    else:
        print(len(P)); 
        names = [p[0] for p in P]; assert len(names) == len(set(names)), [n for n in names if names.count(n) > 1]
