"""Random function signatures and callables, for C17."""
import random
import typegen

KINDS = ["free", "free_pointer", "free_noexcept", "lambda", "lambda_mutable", "functor", "functor_const", "functor_noexcept", "functor_rvalue", "std_function",
         "member", "member_const", "member_noexcept", "member_const_noexcept", "member_const_self", "member_rvalue", "static_member"]


def units(seed, n, n_units, cfgs_per=1, depth=2):
    r = random.Random(seed * 17 + 5)
    g = typegen.Gen(seed * 7919 + 23, prefix="A")
    files = [([], []) for _ in range(n_units)]
    counts = [0, 1, 1, 2, 2, 3, 3, 4, 5, 6]
    for k in range(n):
        kind = KINDS[k % len(KINDS)]
        n_args = counts[(k // len(KINDS) + k) % len(counts)]
        while True:
            parts = [g.scalar() if r.random() < 0.3 else g.any(depth) for _ in range(n_args)]
            if all(p.default and p.ordered and "[" not in p.cpp for p in parts) and sum(len(p.defs) for p in parts) < 12:
                break
        rk = r.choice(["void", "u64", "any", "any", "ref", "cref", "rref", "uptr", "nd", "empty"])
        if not n_args and rk in ("ref", "cref", "rref"):
            rk = "any"
        rt, rdefs = {"void": "void", "u64": "std::uint64_t", "uptr": "c17::uptr", "nd": "c17::nd", "empty": "t::empty"}.get(rk), []
        if rt is None:
            while True:
                p = g.any(depth)
                if p.default and p.copy and p.ordered and "[" not in p.cpp:
                    break
            rt = {"any": p.cpp, "ref": p.cpp + " &", "cref": f"const {p.cpp} &", "rref": p.cpp + " &&"}[rk]
            rdefs = p.defs
        defs, regs = files[k % n_units]
        for p in parts:
            for d in p.defs:
                if d not in defs:
                    defs.append(d)
        for d in rdefs:
            if d not in defs:
                defs.append(d)
        how = [r.choice(["value", "value", "cref", "cref", "rref", "cvalue"]) for _ in parts]
        params = ", ".join({"value": "%s a%d", "cref": "const %s & a%d", "rref": "%s && a%d", "cvalue": "const %s a%d"}[h] % (p.cpp, i) for i, (p, h) in enumerate(zip(parts, how)))
        names = "".join(f", a{i}" for i in range(n_args))
        nm = f"F{k}"
        body = f"return c17::body<{rt}>(%s{names});"
        nx = "noexcept" in kind
        sig = f"({params})"
        suffix = (" const" if kind in ("functor_const", "member_const", "member_const_noexcept", "member_const_self") else "") + (" noexcept" if nx else "")
        types = ", ".join(p.cpp for p in parts)
        extra = ""
        if kind.startswith("free"):
            pre = f"inline {rt} fn{k}{sig}{suffix} {{ {body % 'nullptr'} }}\n"
            call = {"free": f"return zpp::bits::apply(fn{k}, in);", "free_pointer": f"auto p = &fn{k}; return zpp::bits::apply(p, in);", "free_noexcept": f"return zpp::bits::apply(&fn{k}, in);"}[kind]
        elif kind == "static_member":
            pre = f"struct Static{k} {{ static {rt} fn{sig} {{ {body % 'nullptr'} }} }};\n"
            call = f"return zpp::bits::apply(&Static{k}::fn, in);"
        elif kind in ("lambda", "lambda_mutable"):
            pre = ""
            mut = " mutable" if kind == "lambda_mutable" else ""
            call = f"c17::log->count_extra = true; unsigned & x = c17::log->extra; auto f = [&x, k = 0u]{sig}{mut} -> {rt} {{ ++x; {'x += k; ++k; ' if mut else '(void)k; '}{body % 'nullptr'} }}; return zpp::bits::apply(f, in);"
        elif kind == "std_function":
            pre = ""
            # std::function keeps its parameter types as declared
            ft = ", ".join({"value": "%s", "cref": "const %s &", "rref": "%s &&", "cvalue": "%s"}[h] % p.cpp for p, h in zip(parts, how))
            call = f"std::function<{rt}({ft})> f = []{sig} -> {rt} {{ {body % 'nullptr'} }}; return zpp::bits::apply(f, in);"
        elif kind.startswith("functor"):
            pre = f"struct Functor{k} {{ {rt} operator(){sig}{suffix} {{ {body % 'this'} }} int state = 0; }};\n"
            f = "std::move(f)" if kind == "functor_rvalue" else "f"
            const = "const " if kind == "functor_const" else ""
            call = f"{const}Functor{k} f; c17::log->expected_self = &f; return zpp::bits::apply({f}, in);"
        else:
            pre = f"struct Object{k} {{ {rt} fn{sig}{suffix} {{ {body % 'this'} }} int state = 0; }};\n"
            const = "const " if kind == "member_const_self" else ""
            f = "std::move(f)" if kind == "member_rvalue" else "f"
            p = f"auto p = &Object{k}::fn; " if k % 2 else ""
            call = f"{const}Object{k} f; c17::log->expected_self = &f; {p}return zpp::bits::apply({f}, {'p' if p else f'&Object{k}::fn'}, in);"
        hostile = str(all(p.hostile for p in parts)).lower()
        limited = "true" if hostile == "true" else "false"
        # std::function and others may not add a call to the argument list
        defs.append(f"{pre}struct {nm}\n{{\n    using args = std::tuple<{types}>;\n    using ret = {rt};\n    static constexpr bool can_throw = {str(not nx).lower()}, hostile = {hostile}, limited = {limited};\n"
                    f"    static constexpr const char * name = \"{kind}/{n_args}/{rk}\";\n"
                    f"    static auto call(auto & in) {{ {call} }}\n}};\n")
        for c in r.sample(typegen.CFGS, cfgs_per):
            regs.append(f'static eng::Registrar reg{len(regs)}{{"{kind}.{k}.{n_args}.{rk}.{c}", &c17::run<{nm}, cfgs::{c}>}};')
    return [(f"apply{i}.cpp", '#include "c17.hpp"\n' + typegen.PRELUDE + "\n".join(d) + "\n" + "\n".join(t) + "\n") for i, (d, t) in enumerate(files)]
