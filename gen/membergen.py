"""Structs of 0..50 members, for C16."""
import random
import typegen


def units(seed, per_count, n_units, counts=range(51)):
    r = random.Random(seed * 13 + 5)
    files = [([], []) for _ in range(n_units)]
    g = typegen.Gen(seed * 13 + 6)
    k = 0
    for n in counts:
        styles = ["agg"] + r.sample(["agg_members", "agg_adl", "priv_members", "agg"], per_count - 1)
        for style in styles:
            parts = []
            kind = r.random()
            one = g.scalar()
            while len(parts) < n:
                if kind < 0.2:
                    parts.append(one)  # all alike
                elif kind < 0.5:
                    parts.append(g.scalar())
                else:
                    x = r.random()
                    p = g.scalar() if x < 0.45 else g.any(1) if x < 0.9 or n > 30 else g.any(2)
                    if p.ordered and "[" not in p.cpp:
                        parts.append(p)
            if n and r.random() < 0.15:
                parts[r.randrange(n)] = g.mk("empty", "t::empty")
            if style == "agg" and len(parts) == 1 and parts[0].cpp.startswith("std::optional"):
                parts[0] = g.scalar()
            nm = f"C{k}"
            t = g.emit(nm, "t::" + nm, style, parts, None, style)
            defs, regs = files[k % n_units]
            for d in t.defs:
                if d not in defs:
                    defs.append(d)
            types = "std::tuple<" + ", ".join(p.cpp for p in parts) + ">"
            c = r.choice(typegen.CFGS)
            regs.append(f'static eng::Registrar reg{k}{{"{style}.{n}.{k}.{c}", &c16::run<t::{nm}, {n}, {types}, cfgs::{c}>, "{style}"}};')
            k += 1
        # protocol
        if n:
            style = r.choice(["pb", "pb_members", "pb_private", "pb_adl"])
            types = [r.choice(["std::int32_t", "std::uint32_t", "float", "t::e32", "std::int32_t"]) for _ in range(n)]
            types = ["std::uint32_t" if x in ("float", "t::e32") else x for x in types]
            nm = f"P{k}"
            members = "".join(f"    {t} m{i}{{}};\n" for i, t in enumerate(types))
            at = "    void * at(std::size_t i) { void * a[] = {" + ", ".join(f"&m{i}" for i in range(n)) + "}; return a[i]; }\n"
            if style == "pb_private":
                body = f"class {nm}\n{{\npublic:\n    {nm}() {{}}\n    using serialize = zpp::bits::protocol<zpp::bits::pb{{}}, {n}>;\n{at}private:\n    friend zpp::bits::access;\n{members}}};\n"
            elif style == "pb_members":
                body = f"struct {nm}\n{{\n{members}{at}    using serialize = zpp::bits::protocol<zpp::bits::pb{{}}, {n}>;\n}};\n"
            elif style == "pb_adl":
                body = f"struct {nm}\n{{\n{members}{at}}};\nauto serialize(const {nm} &) -> zpp::bits::pb_protocol;\n"
            else:
                body = f"struct {nm}\n{{\n{members}{at}    using serialize = zpp::bits::pb_protocol;\n}};\n"
            defs, regs = files[k % n_units]
            defs.append("namespace t\n{\n" + body + "}\n")
            regs.append(f'static eng::Registrar reg{k}{{"{style}.{n}.{k}", &c16::protocol<t::{nm}, {n}, std::tuple<{", ".join(types)}>>, "{style}"}};')
            k += 1
    return [(f"members{i}.cpp", '#include "c16.hpp"\n' + typegen.PRELUDE + "\n".join(d) + "\n" + "\n".join(t) + "\n") for i, (d, t) in enumerate(files)]
