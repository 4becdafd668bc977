"""Random sets of RPC bindings, for C18."""
import hashlib
import random
import typegen

LETTERS = "abcdefghijklmnopqrstuvwxyz01_"


def ids(r, n):
    """n distinct ids of one width: (template arguments, id bytes in native order, size)."""
    kind = r.choice(["sha256_int", "sha256_int", "sha1_int", "int", "u8", "u16", "u64", "i16", "enum", "lit", "sha256_n", "sha1_n"])
    if kind == "lit":
        w = r.choice([1, 2, 3, 4, 5, 8, 12, 20])
    if kind in ("sha256_n", "sha1_n"):
        w = r.choice([1, 2, 3, 4, 7, 8, 16, 20])
    base = r.getrandbits(64)
    out, used = [], set()
    while len(out) < n:
        name = "".join(r.choice(LETTERS) for _ in range(r.randint(1, 70 if r.random() < .2 else 12)))
        # numbers near each other: equal low or high bytes
        v = r.choice([base, base ^ (1 << r.randrange(64)), base + r.randrange(4), r.getrandbits(64), r.randrange(4), (base << 8) & (2**64 - 1)])
        if kind == "sha256_int":
            t, b = f'"{name}"_sha256_int', hashlib.sha256(name.encode()).digest()[:4]
        elif kind == "sha1_int":
            t, b = f'"{name}"_sha1_int', hashlib.sha1(name.encode()).digest()[:4]
        elif kind == "int":
            v = v % 2**32
            v = v - 2**32 if v >= 2**31 else v
            if v == -2**31: continue
            t, b = f"{v}", (v % 2**32).to_bytes(4, "little")
        elif kind == "u8":
            v %= 256; t, b = f"std::uint8_t({v})", bytes([v])
        elif kind == "u16":
            v %= 65536; t, b = f"std::uint16_t({v})", v.to_bytes(2, "little")
        elif kind == "u64":
            t, b = f"std::uint64_t({v}ull)", v.to_bytes(8, "little")
        elif kind == "i16":
            v = v % 65536 - 32768; t, b = f"std::int16_t({v})", (v % 65536).to_bytes(2, "little")
        elif kind == "enum":
            v = v % 65536 - 32768; t, b = f"t::e16({v})", (v % 65536).to_bytes(2, "little")
        elif kind == "lit":
            x = "".join(r.choice("ab") if r.random() < .8 else r.choice(LETTERS) for _ in range(w))
            t, b = f'"{x}"_s', x.encode()
        elif kind == "sha256_n":
            t, b = f'"{name}"_sha256, {w}', hashlib.sha256(name.encode()).digest()[:w]
        else:
            t, b = f'"{name}"_sha1, {w}', hashlib.sha1(name.encode()).digest()[:w]
        if b in used: continue
        used.add(b)
        out.append((t, b))
    return kind, out


def id_enc(b):
    if len(b) in (2, 4, 8):
        return f"e.value(std::uint{8 * len(b)}_t({int.from_bytes(b, 'little')}ull));"
    return "".join(f"e.byte({x});" for x in b)


INTS = {"std::int8_t", "std::uint8_t", "std::int16_t", "std::uint16_t", "std::int32_t", "std::uint32_t", "std::int64_t", "std::uint64_t"}


def one_set(r, g, k, tier_max):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, tier_max])
    id_kind, the_ids = ids(r, n + 1)
    the_ids, unknown = the_ids[:n], the_ids[n]
    c = r.choice(typegen.CFGS)
    with_opaque = r.random() < .5
    defs, members, free, structs, binds = [], [], [], [], []
    any_opaque, any_member, all_hostile = False, False, True

    def typ(d=1, copy=False):
        while True:
            p = g.scalar() if r.random() < .35 else g.any(d)
            if p.default and p.ordered and "[" not in p.cpp and (p.copy or not copy) and len(p.defs) < 6:
                return p

    for i in range(n):
        member = r.random() < .4
        kind = "FUNCTION" if not with_opaque or r.random() < .5 else r.choice(["IN_OUT", "IN_OUT", "IN", "IN", "OUT", "SPAN", "SPAN_REF", "SPAN_REF", "NOTHING"])
        any_member |= member
        any_opaque |= kind != "FUNCTION"
        parts = [typ() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))]
        if kind == "SPAN_REF":
            parts = [g.mk("sized", "zpp::bits::sized_t<std::vector<std::uint8_t>, std::uint8_t>")]
        if kind in ("OUT", "NOTHING"):
            parts = []
        result = typ(2, copy=True)
        errc_return = False
        if kind in ("FUNCTION", "SPAN", "SPAN_REF", "NOTHING"):
            x = r.random()
            ret = "void" if x < .25 else f"std::unique_ptr<{result.cpp}>" if x < .4 and "unique_ptr" not in result.cpp else result.cpp
            reply = "NO_REPLY" if ret == "void" else "BY_SERVER"
        elif kind == "IN":
            ret, reply = r.choice([("zpp::bits::errc", "NO_REPLY"), (result.cpp, "BY_SERVER"), ("void", "NO_REPLY")])
            errc_return = ret == "zpp::bits::errc"
        else:
            ret, reply = r.choice([("zpp::bits::errc", "BY_FUNCTION"), ("void", "BY_FUNCTION")])
            errc_return = ret == "zpp::bits::errc"
        for p in parts + [result]:
            for d in p.defs:
                if d not in defs: defs.append(d)
        types = ", ".join(p.cpp for p in parts)
        self = "this" if member else "nullptr"
        suffix = (" const" if member and r.random() < .3 else "") + (" noexcept" if r.random() < .25 else "")
        span = "decltype(std::declval<in_t &>().remaining_data())"
        if kind == "FUNCTION":
            how = [r.choice(["{t} a{i}", "const {t} & a{i}", "{t} && a{i}"]).format(t=p.cpp, i=j) for j, p in enumerate(parts)]
            fn = f"{ret} fn{i}({', '.join(how)}){suffix} {{ return c18::body<{ret}, {i}>({self}{''.join(f', a{j}' for j in range(len(parts)))}); }}"
        elif kind == "IN_OUT":
            fn = f"{ret} fn{i}(in_t & in, out_t & out){suffix} {{ {'return ' if errc_return else '(void)'}c18::in_out_body<std::tuple<{types}>, {result.cpp}, {i}>({self}, in, out); }}"
        elif kind == "IN":
            call = f"c18::read_args<std::tuple<{types}>, {result.cpp}, {i}>({self}, in)"
            fn = f"{ret} fn{i}(in_t & in){suffix} {{ " + (f"return {call};" if errc_return else f"(void){call};" if ret == "void" else f"(void){call}; return c18::result<{ret}, {i}>();") + " }"
        elif kind == "OUT":
            fn = f"{ret} fn{i}(out_t & out){suffix} {{ {'return ' if errc_return else '(void)'}c18::out_body<{result.cpp}, {i}>({self}, out); }}"
        elif kind in ("SPAN", "SPAN_REF"):
            ref = " &" if kind == "SPAN_REF" else ""
            fn = f"{ret} fn{i}({span}{ref} data){suffix} {{ return c18::span_body<{ret}, {i}>({self}, data, {str(kind == 'SPAN_REF').lower()}); }}"
        else:
            fn = f"{ret} fn{i}(){suffix} {{ return c18::body<{ret}, {i}>({self}); }}"
        (members if member else free).append(("" if member else "inline ") + fn)
        idt, idb = the_ids[i]
        binds.append(f"zpp::bits::{'bind' if kind == 'FUNCTION' else 'bind_opaque'}<{'&Obj::' if member else r.choice(['', '&'])}fn{i}, {idt}>")
        hostile = all(p.hostile for p in parts)
        all_hostile &= hostile
        # arguments in four styles: lvalues, const lvalues, rvalues, converted
        def args(style):
            out = []
            for j, p in enumerate(parts):
                x = f"std::get<{j}>(a)"
                if style == 1: x = f"std::as_const({x})"
                if style == 2: x = f"std::move({x})"
                if style == 3 and p.cpp in INTS: x = f"static_cast<long long>({x})"
                elif style == 3 and p.copy and j % 2: x = f"std::as_const({x})"
                out.append(x)
            return ", ".join(out)
        # a function that takes a move only parameter accepts no conversions
        plain = any(not p.copy for p in parts) or kind != "FUNCTION"
        def switch(name):
            void = f"static std::errc {name}(auto & client, auto & a, unsigned style) {{ (void)a; (void)style; "
            if not parts and kind == "FUNCTION" or (kind in ("OUT", "NOTHING") and not parts):
                empty = "client.template %s<%s>()" % (name, idt)
                if name == "request_body" :
                    if kind != "NOTHING": return void + f"if constexpr (std::is_void_v<decltype({empty})>) {empty}; else return {empty}; return {{}}; }}"
                    return void + f"{empty}; return {{}}; }}"
                return void + f"return {empty}; }}"
            cases = "".join(f"case {st}: return client.template {name}<{idt}>({args(st if not (st == 3 and plain) else 1)}); " for st in (1, 2, 3))
            return void + f"switch (style) {{ {cases}default: return client.template {name}<{idt}>({args(0)}); }} }}"
        structs.append(f"""struct F{i}
{{
    static constexpr auto kind = c18::{kind};
    static constexpr auto reply = c18::{reply};
    using args = std::tuple<{types}>;
    using ret = {ret};
    using result = {f'{result.cpp}' if reply == 'BY_FUNCTION' else ret if reply == 'BY_SERVER' else 'void'};
    static constexpr bool errc_return = {str(errc_return).lower()}, member = {str(member).lower()}, result_hostile = {str(result.hostile).lower()};
    static constexpr const char * name = "{kind}{'/member' if member else ''}/{len(parts)}";
    static void id(model::Enc & e) {{ {id_enc(idb)} }}
    {switch('request')}
    {switch('request_body')}
    static auto response(auto & client) {{ return client.template response<{idt}>(); }}
    static std::errc serve(auto & server) {{ return server.serve(zpp::bits::id_v<{idt}>); }}
}};""")
    any_member_ = any_member
    ns = f"set{k}"
    order = list(range(n))
    r.shuffle(order)
    together = r.random() < .5
    ctx = "object" if any_member_ else ""
    lim = ", zpp::bits::alloc_limit<ops::hostile_limit>{}"
    if together:
        mk_client = f"auto [client, server] = rpc::client_server(in, out{', other()' if any_member_ else ''}); return std::move(client);"
        mk_server = f"auto [client, server] = rpc::client_server(in, out{', object' if any_member_ else ''}); return std::move(server);"
    else:
        mk_client = "return typename rpc::client{in, out};".replace("typename ", "")
        mk_server = f"return rpc::server{{in, out{', object' if any_member_ else ''}}};"
    text = f"""
namespace {ns}
{{
using namespace zpp::bits::literals;
using C = cfgs::{c};
inline auto open(C::container & c) {{ return C::in(c{lim}); }}
using in_t = decltype(open(std::declval<C::container &>()));
using out_t = decltype(C::out(std::declval<C::container &>()));
struct Obj
{{
    {chr(10).join('    ' + m for m in members).strip()}
    int state = 0;
}};
{chr(10).join(free)}
inline Obj & other() {{ static Obj o; return o; }}
{chr(10).join(structs)}
using rpc = zpp::bits::rpc<{', '.join(binds[i] for i in order)}>;
struct S
{{
    using C = {ns}::C;
    using in_t = {ns}::in_t;
    using out_t = {ns}::out_t;
    using Obj = {ns}::Obj;
    using functions = std::tuple<{', '.join(f'F{i}' for i in range(n))}>;
    static constexpr std::size_t id_size = {len(unknown[1])};
    static constexpr bool any_opaque = {str(any_opaque).lower()}, hostile = {str(all_hostile).lower()};
    static constexpr const char * name = "{n} bindings/{id_kind}/{c}";
    static auto open_in(C::container & c) {{ return open(c); }}
    static auto make_client(auto & in, auto & out) {{ {mk_client} }}
    static auto make_server(auto & in, auto & out, Obj & object) {{ (void)object; {mk_server} }}
    static void unknown_id(model::Enc & e) {{ {id_enc(unknown[1])} }}
    static std::errc serve_unknown(auto & server) {{ return server.serve(zpp::bits::id_v<{unknown[0]}>); }}
}};
static eng::Registrar reg{{"{ns}.{n}.{id_kind}.{c}", &c18::run<S>}};
}} // namespace {ns}
"""
    return defs, text


def units(seed, n_sets, n_units, tier_max):
    r = random.Random(seed * 19 + 3)
    g = typegen.Gen(seed * 7919 + 29, prefix="Q")
    files = [([], []) for _ in range(n_units)]
    for k in range(n_sets):
        d, t = one_set(r, g, k, tier_max)
        defs, texts = files[k % n_units]
        for x in d:
            if x not in defs: defs.append(x)
        texts.append(t)
    return [(f"rpc{i}.cpp", '#include "c18.hpp"\n' + typegen.PRELUDE + "\n".join(d) + "\n" + "\n".join(t) + "\n") for i, (d, t) in enumerate(files) if t]
