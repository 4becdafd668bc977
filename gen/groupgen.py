"""Groupings of the same item lists for C13."""
import random
import typegen

STYLES = ["agg", "agg", "agg_members", "agg_adl", "priv_members", "expl", "expl_adl", "expl_split"]


def build(g, r, parts, lo, hi, depth):
    """A type covering parts[lo:hi], with the access path of each leaf given the path of the whole."""
    n = hi - lo
    if n == 1 and (depth <= 0 or r.random() < 0.5):
        return parts[lo], lambda x: [x]
    if n == 1 and r.random() < 0.4 and parts[lo].default:
        k = r.choice(["unique_ptr", "shared_ptr"])
        p = parts[lo]
        return g.mk(k, f"std::{k}<{p.cpp}>", [p], copy=False), lambda x: [f"(*{x})"]
    kinds = ["struct"] * 5 + ["tuple"] * 3
    if n == 2:
        kinds += ["pair"] * 2
    same = len({p.cpp for p in parts[lo:hi]}) == 1
    if same:
        kinds += ["array"] * 8
    k = r.choice(kinds)
    if k == "array":
        p = parts[lo]
        return g.mk("array", f"std::array<{p.cpp}, {n}>", [p]), lambda x: [f"{x}[{i}]" for i in range(n)]
    # cut the range into children
    if k == "pair":
        cuts = [lo, lo + 1, hi]
    else:
        cuts = [lo] + sorted(set(r.randrange(lo + 1, hi) for _ in range(r.randint(0, n - 1)))) + [hi] if n > 1 else [lo, hi]
    kids = [build(g, r, parts, a, b, depth - 1 if len(cuts) == 2 else depth) if depth > 0 or b - a > 1 else (parts[a], lambda x: [x]) for a, b in zip(cuts, cuts[1:])]
    ts = [t for t, _ in kids]
    if k == "struct":
        nm = g.name()
        t = g.emit(nm, "t::" + nm, r.choice(STYLES), ts, None, "group")
        return t, lambda x: [y for i, (_, f) in enumerate(kids) for y in f(f"std::get<{i}>(model::M<t::{nm}>::tie({x}))")]
    t = g.mk(k, f"std::{k}<{', '.join(x.cpp for x in ts)}>", ts)
    return t, lambda x: [y for i, (_, f) in enumerate(kids) for y in f(f"std::get<{i}>({x})")]


def units(seed, n_lists, n_units, groups, cfgs_per, depth=2):
    r = random.Random(seed * 131 + 3)
    g = typegen.Gen(seed * 7907 + 11, prefix="G")
    texts = [([], []) for _ in range(n_units)]
    cfgs = list(typegen.CFGS)
    for k in range(n_lists):
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        mode = r.random()
        while True:
            if mode < 0.25:  # homogeneous
                e = r.choice([g.scalar(), g.scalar(), g.any(depth), g.varint()])
                parts = [e] * n
            elif mode < 0.5:  # scalars: candidates for byte copies
                parts = [g.scalar() for _ in range(n)]
            else:
                parts = [g.any(depth) if r.random() < 0.6 else g.scalar() for _ in range(n)]
            if all(p.ordered and p.default and "[" not in p.cpp for p in parts) and sum(len(p.defs) for p in parts) < 14:
                break
        defs = []

        def need(t):
            for d in t.defs:
                if d not in defs:
                    defs.append(d)
        for p in parts:
            need(p)
        types, accessors = [], []
        for j in range(groups):
            cuts = [0] + sorted(set(r.randrange(1, n) for _ in range(r.randint(0, 2)))) + [n] if n > 1 and r.random() < 0.5 else [0, n]
            tops = [build(g, r, parts, a, b, 2) for a, b in zip(cuts, cuts[1:])]
            for t, _ in tops:
                need(t)
            types.append("std::tuple<" + ", ".join(t.cpp for t, _ in tops) + ">")
            leaves = [y for i, (_, f) in enumerate(tops) for y in f(f"std::get<{i}>(x)")]
            accessors.append(f"static auto leaves(std::integral_constant<std::size_t, {j}>, auto & x) {{ return std::tie({', '.join(leaves)}); }}")
        same = len({p.cpp for p in parts}) == 1 and parts[0].cpp != "bool"
        desc = (f"namespace l{k} {{ struct desc {{ using flat = std::tuple<{', '.join(p.cpp for p in parts)}>; using groups = std::tuple<{', '.join(types)}>; "
                f"static constexpr bool same = {str(same).lower()};\n" + "\n".join(accessors) + "\n}; }\n")
        regs = "".join(f'static eng::Registrar l{k}_{c}{{"list{k}_{c}", &c13::run<l{k}::desc, cfgs::{c}>}};\n' for c in r.sample(cfgs, cfgs_per))
        d, t = texts[k % n_units]
        for x in defs:
            if x not in d:
                d.append(x)
        t.append(desc + regs)
    return [(f"groups{i}.cpp", '#include "c13.hpp"\n' + typegen.PRELUDE + "\n".join(d) + "\n" + "\n".join(t)) for i, (d, t) in enumerate(texts)]
