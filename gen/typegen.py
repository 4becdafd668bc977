"""Random C++ types inside the documented domain, with their reference model."""
import random

CFGS = ["plain","plain_char","plain_uchar","plain_string","little","native","big","network","swapped",
        "s1","s2","s4","s8","snative","svarint","big_s1","big_s2","big_s8","big_svarint"]

INTS = ["std::int8_t","std::uint8_t","std::int16_t","std::uint16_t","std::int32_t","std::uint32_t",
        "std::int64_t","std::uint64_t"]
CHARS = ["char","unsigned char","signed char","std::byte","char8_t","char16_t","char32_t","wchar_t"]
ENUMS = ["e8","e8s","e16","e32","e64","e32u"]
def canon(cpp):
    """The type name with aliases resolved (two spellings of one type cannot be alternatives of one variant)."""
    for a, b in (("unsigned char", "std::uint8_t"), ("signed char", "std::int8_t"), ("zpp::bits::vsize_t", "zpp::bits::varint<std::uint64_t>")):
        cpp = cpp.replace(a, b)
    return cpp


SCALARS = INTS + CHARS + ["float","double","bool"] + ["t::"+e for e in ENUMS]
KEYS = INTS + ["char","char16_t","t::e16","t::e32"]
STRINGS = ["std::string","std::u8string","std::u16string","std::u32string","std::wstring"]

PRELUDE = '''
#include "pbtypes.hpp"
#include "userstl.hpp"
namespace t
{
enum class e8 : std::uint8_t { a, b, c = 200 };
enum class e8s : signed char { a = -1, b };
enum class e16 : std::int16_t { a = -300, b = 5, c = 1000 };
enum class e32 : std::int32_t { a = -1, b = 70000 };
enum e32u : std::uint32_t { e32u_a, e32u_b = 0xfffffff0u };
enum class e64 : std::uint64_t { a, b = 0xfedcba9876543210ull };
struct empty {};
struct empty2 { using serialize = zpp::bits::members<0>; };
}
template <> struct model::M<t::empty> : model::StructModel<t::empty, model::M<t::empty>>
{
    static auto tie(auto &) { return std::tuple<>{}; }
    static constexpr bool hostile = true, ordered = true;
    static constexpr std::size_t min_bytes = 0;
};
'''

class T:
    """A generated type."""
    def __init__(s, cpp, hostile=True, ordered=True, default=True, copy=True, key=False, defs=(), kind="", scalar=False, fixed=False, message=False):
        s.cpp, s.hostile, s.ordered, s.default, s.copy, s.key = cpp, hostile, ordered, default, copy, key
        s.defs, s.kind, s.scalar, s.fixed, s.message = list(defs), kind, scalar, fixed, message

class Gen:
    def __init__(self, seed, prefix="S"):
        self.r = random.Random(seed)
        self.n = 0
        self.prefix = prefix
        self.kinds = {}

    def name(self):
        self.n += 1
        return f"{self.prefix}{self.n}"

    def mk(self, kind, cpp, parts=(), **kw):
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        defs = []
        for p in parts:
            for d in p.defs:
                if d not in defs: defs.append(d)
        a = dict(hostile=all(p.hostile for p in parts), ordered=all(p.ordered for p in parts),
                 copy=all(p.copy for p in parts), default=True, kind=kind, message=any(p.message for p in parts))
        extra = kw.pop("defs", [])
        a.update(kw)
        return T(cpp, defs=defs + list(extra), **a)

    # ---- leaves
    def scalar(self):
        c = self.r.choice(SCALARS)
        return self.mk("scalar", c, hostile=c != "bool", scalar=True, fixed=True)

    def varint(self):
        r = self.r
        b = r.choice(["std::int16_t","std::uint16_t","std::int32_t","std::uint32_t","std::int64_t","std::uint64_t",
                      "std::int8_t","std::uint8_t","t::e32","t::e16"])
        if b.startswith("t::"):
            return self.mk("varint_enum", f"zpp::bits::varint<{b}>")
        if "u" not in b and r.random() < .5:
            return self.mk("varint_zz", f"zpp::bits::varint<{b}, zpp::bits::varint_encoding::zig_zag>")
        if r.random() < .1: return self.mk("varint", "zpp::bits::vsize_t")
        return self.mk("varint", f"zpp::bits::varint<{b}>")

    def key(self):
        r = self.r
        k = r.randrange(6)
        if k < 4: return self.mk("key", r.choice(KEYS), key=True)
        if k == 4: return self.mk("key", r.choice(["std::string"]), key=True)
        return self.mk("key", r.choice(["std::string","std::uint32_t"]), key=True)

    def ordkey(self):
        r = self.r
        if r.random() < .2:
            a, b = self.key(), self.key()
            return self.mk("pairkey", f"std::pair<{a.cpp}, {b.cpp}>", [a, b])
        return self.key()

    # ---- anything
    def any(self, d, need_default=True, need_copy=False, allow=None):
        for _ in range(200):
            t = self.any1(d)
            if need_default and not t.default: continue
            if need_copy and not t.copy: continue
            return t
        return self.scalar()

    def any1(self, d):
        r = self.r
        if d <= 0:
            x = r.random()
            if x < .62: return self.scalar()
            if x < .78: return self.mk("string", r.choice(STRINGS))
            if x < .93: return self.varint()
            return self.bitset()
        c = r.choices(
            ["leaf","vector","list","deque","array","map","set","umap","uset","mmap","mset","optional","variant","pair","tuple",
             "uptr","sptr","optr","bitset","sized","struct","vstruct","message","user"],
            [10, 10, 3, 3, 5, 5, 3, 3, 2, 2, 1, 7, 6, 3, 4, 3, 2, 3, 3, 5, 16, 3, 3, 3])[0]
        return getattr(self, "mk_" + c)(d)

    def bitset(self):
        return self.mk("bitset", f"std::bitset<{self.r.choice([1,3,7,8,9,15,16,17,31,32,33,40,63,64,65,100,128,200])}>")
    def mk_bitset(self, d): return self.bitset()
    def mk_message(self, d):
        return self.mk("message", "pm::" + self.r.choice(["point", "text", "packed", "nest"]), message=True)
    def mk_user(self, d):
        """containers of the user's own"""
        k = self.r.choice(["vec", "chain", "derived_vec", "derived_map"])
        if k == "derived_map":
            a, b = self.ordkey(), self.any(d - 1)
            return self.mk("user_" + k, f"u::{k}<{a.cpp}, {b.cpp}>", [a, b])
        e = self.elem(d)
        return self.mk("user_" + k, f"u::{k}<{e.cpp}>", [e], **({} if e.copy else {}))
    def mk_leaf(self, d): return self.any1(0)
    def elem(self, d):
        # element of a sequence: default constructible; not bool (vector<bool> is a proxy container)
        while True:
            t = self.any(d - 1)
            if t.cpp != "bool": return t
    def mk_vector(self, d):
        e = self.elem(d); return self.mk("vector", f"std::vector<{e.cpp}>", [e])
    def mk_list(self, d):
        e = self.elem(d); return self.mk("list", f"std::list<{e.cpp}>", [e])
    def mk_deque(self, d):
        e = self.elem(d); return self.mk("deque", f"std::deque<{e.cpp}>", [e])
    def mk_array(self, d):
        e = self.any(d - 1); return self.mk("array", f"std::array<{e.cpp}, {self.r.randint(1,5)}>", [e])
    def mk_map(self, d):
        k, v = self.ordkey(), self.any(d - 1, need_default=False)
        # mapped values are created through the library, so they may have a private default constructor
        v = v if v.default else self.any(d - 1)
        return self.mk("map", f"std::map<{k.cpp}, {v.cpp}>", [k, v])
    def mk_set(self, d):
        k = self.ordkey(); return self.mk("set", f"std::set<{k.cpp}>", [k])
    def mk_umap(self, d):
        k, v = self.key(), self.any(d - 1)
        if self.r.random() < .2: return self.mk("unordered_multimap", f"std::unordered_multimap<{k.cpp}, {v.cpp}>", [k, v], ordered=False)
        return self.mk("unordered_map", f"std::unordered_map<{k.cpp}, {v.cpp}>", [k, v], ordered=False)
    def mk_uset(self, d):
        k = self.key()
        if self.r.random() < .3: return self.mk("unordered_multiset", f"std::unordered_multiset<{k.cpp}>", [k], ordered=False)
        return self.mk("unordered_set", f"std::unordered_set<{k.cpp}>", [k], ordered=False)
    def mk_mmap(self, d):
        k, v = self.key(), self.any(d - 1)
        return self.mk("multimap", f"std::multimap<{k.cpp}, {v.cpp}>", [k, v])
    def mk_mset(self, d):
        k = self.key(); return self.mk("multiset", f"std::multiset<{k.cpp}>", [k])
    def mk_optional(self, d):
        if self.r.random() < .2:
            e = self.struct(d - 1, style="nodefault")
        else:
            e = self.any(d - 1, need_default=False)
        return self.mk("optional" if e.default else "optional_nodefault", f"std::optional<{e.cpp}>", [e])
    def mk_pair(self, d):
        a, b = self.any(d - 1), self.any(d - 1); return self.mk("pair", f"std::pair<{a.cpp}, {b.cpp}>", [a, b])
    def mk_tuple(self, d):
        p = [self.any(d - 1) for _ in range(self.r.randint(1, 4))]
        return self.mk("tuple", f"std::tuple<{', '.join(x.cpp for x in p)}>", p)
    def mk_uptr(self, d):
        e = self.any(d - 1); return self.mk("unique_ptr", f"std::unique_ptr<{e.cpp}>", [e], copy=False)
    def mk_sptr(self, d):
        e = self.any(d - 1); return self.mk("shared_ptr", f"std::shared_ptr<{e.cpp}>", [e])
    def mk_optr(self, d):
        e = self.any(d - 1); return self.mk("optional_ptr", f"zpp::bits::optional_ptr<{e.cpp}>", [e], copy=False)
    def mk_sized(self, d):
        r = self.r
        while True:
            c = self.r.choice([self.mk_vector, self.mk_vector, self.mk_map, self.mk_deque, self.mk_set])(d) if r.random() < .75 else self.mk("string", r.choice(STRINGS))
            if c.copy: break
        if r.random() < .3 and c.kind == "vector":
            e = c.cpp[len("std::vector<"):-1]
            return self.mk("sized_alias", f"zpp::bits::{r.choice(['vector1b','vector2b','vector4b','vector8b','native_vector'])}<{e}>", [c])
        return self.mk("sized", f"zpp::bits::sized_t<{c.cpp}, {r.choice(['std::uint8_t','std::uint16_t','std::uint32_t','std::uint64_t','zpp::bits::vsize_t'])}>", [c])
    def mk_variant(self, d):
        n = self.r.randint(1, 5)
        p, seen = [], set()
        while len(p) < n:
            first = not p
            if not first and self.r.random() < .2: e = self.struct(d - 1, style="nodefault")
            else: e = self.any(d - 1, need_default=first)
            if canon(e.cpp) in seen: continue
            seen.add(canon(e.cpp)); p.append(e)
        return self.mk("variant", f"std::variant<{', '.join(x.cpp for x in p)}>", p)
    def mk_vstruct(self, d):
        """variant of structs with user ids"""
        r = self.r
        n = r.randint(1, 4)
        kind = r.choice(["u8","u16","u32","i64","enum","lit2","lit3","lit8","lit12"])
        used, p = set(), []
        for i in range(n):
            while True:
                v = r.choice([0, 1, 2, 127, 128, 255, 256, 65535, 0x01020304, 0x7fffffff, r.getrandbits(31)])
                if kind == "u8": v &= 0xff
                if kind == "u16": v &= 0xffff
                if kind == "enum": v = r.choice([0xffff - 299, 5, 1000, 7, 9])
                if kind.startswith("lit"): v = "".join(r.choice("abcdefgh01") for _ in range(int(kind[3:])))
                if v not in used: break
            used.add(v)
            if kind == "u8": expr, enc = f"serialization_id<std::uint8_t({v})>", f"e.value(std::uint8_t({v}))"
            elif kind == "u16": expr, enc = f"serialization_id<std::uint16_t({v})>", f"e.value(std::uint16_t({v}))"
            elif kind == "u32": expr, enc = f"serialization_id<std::uint32_t({v}u)>", f"e.value(std::uint32_t({v}u))"
            elif kind == "i64": expr, enc = f"serialization_id<std::int64_t({v} - 1000000)>", f"e.value(std::int64_t({v} - 1000000))"
            elif kind == "enum": expr, enc = f"serialization_id<t::e16(std::int16_t({v}))>", f"e.value(std::int16_t({v}))"
            else:
                b = v.encode()
                expr = f'id<"{v}"_s>'
                if len(b) in (2, 8): enc = f"e.value(std::uint{8*len(b)}_t({int.from_bytes(b,'little')}ull))"
                else: enc = f'e.raw("{v}", {len(b)})'
            p.append(self.struct(d - 1, style=r.choice(["agg", "agg_members", "priv_members", "expl"]) if i == 0 else None, vid=(expr, enc)))
        return self.mk("variant_ids", f"std::variant<{', '.join(x.cpp for x in p)}>", p)

    def mk_struct(self, d): return self.struct(d)

    def struct(self, d, style=None, vid=None):
        r = self.r
        nm = self.name()
        full = "t::" + nm
        if style is None:
            style = r.choices(["agg","agg_members","agg_adl","priv_members","expl","expl_adl","expl_split","pod","podpad","nodefault"],
                              [6, 2, 2, 2, 2, 2, 2, 4, 3, 1 if vid is None else 0])[0]
        if style in ("pod", "podpad"):
            # trivially copyable: eligible (or not, because of padding) for byte copies
            if style == "pod":
                w = r.choice([1, 2, 4, 8])
                pool = [x for x in SCALARS if x != "bool" and SZ.get(x) == w]
                parts = [self.mk("scalar", r.choice(pool), scalar=True) for _ in range(r.randint(1, 5))]
            else:
                parts = [self.scalar() for _ in range(r.randint(2, 5))]
            if r.random() < .25: parts.append(self.mk("array", f"std::array<{parts[0].cpp}, {r.randint(1,3)}>", [parts[0]]))
            inner = r.choice(["agg", "agg", "agg_members", "priv_members"])
            return self.emit(nm, full, inner, parts, vid, "struct_" + style)
        n = r.choices([1, 2, 3, 4, 5, 7], [2, 4, 4, 3, 2, 1])[0]
        parts = [self.any(d - 1) for _ in range(n)]
        if style != "agg" and r.random() < .25:
            e = self.any(d - 1)
            parts.append(T(e.cpp + "[%d]" % r.randint(1, 4), e.hostile, e.ordered, True, e.copy, defs=e.defs, kind="carray", message=e.message))
        if r.random() < .07:
            parts.insert(r.randrange(len(parts) + 1), self.mk("empty", "t::empty"))
        return self.emit(nm, full, style, parts, vid, "struct_" + style)

    def emit(self, nm, full, style, parts, vid, kind):
        r = self.r
        names = [f"m{i}" for i in range(len(parts))]
        def decl(p, n):
            if p.cpp.endswith("]"):
                base, arr = p.cpp.rsplit("[", 1)
                return f"    {base} {n}[{arr}{{}};"
            return f"    {p.cpp} {n}{{}};"
        members = "\n".join(decl(p, n) for p, n in zip(parts, names))
        N = len(parts)
        ident = f"    using serialize_id = zpp::bits::{vid[0]};\n" if vid else ""
        args = ", ".join("self." + n for n in names)
        fr = f"    friend struct ::model::M<{full}>;\n    friend zpp::bits::access;\n"
        after = ""
        if style == "agg":
            body = f"struct {nm}\n{{\n{ident}{members}\n}};"
        elif style == "agg_members":
            body = f"struct {nm}\n{{\n{ident}    using serialize = zpp::bits::members<{N}>;\n{members}\n}};"
        elif style == "agg_adl":
            body = f"struct {nm}\n{{\n{ident}{members}\n}};\nauto serialize(const {nm} &) -> zpp::bits::members<{N}>;"
        elif style == "priv_members":
            body = f"class {nm}\n{{\npublic:\n{ident}    {nm}() = default;\n    using serialize = zpp::bits::members<{N}>;\nprivate:\n{fr}{members}\n}};"
        elif style == "nodefault":
            body = f"class {nm}\n{{\npublic:\n{ident}    using serialize = zpp::bits::members<{N}>;\nprivate:\n{fr}    {nm}() = default;\n{members}\n}};"
        elif style == "expl":
            body = f"struct {nm}\n{{\n{ident}    {nm}() {{}}\n    constexpr static auto serialize(auto & archive, auto & self)\n    {{\n        return archive({args});\n    }}\n{members}\n}};"
        elif style == "expl_adl":
            sargs = args.replace("self.", "s.")
            body = (f"struct {nm}\n{{\n{ident}{members}\n}};\n"
                    f"constexpr auto serialize(auto & archive, {nm} & s) {{ return archive({sargs}); }}\n"
                    f"constexpr auto serialize(auto & archive, const {nm} & s) {{ return archive({sargs}); }}")
        elif style == "expl_split":
            steps = "\n".join(f"        if (auto r = archive(self.{n}); zpp::bits::failure(r)) return r;" for n in names[:-1])
            body = (f"struct {nm}\n{{\n{ident}    {nm}() {{}}\n    constexpr static zpp::bits::errc serialize(auto & archive, auto & self)\n    {{\n{steps}\n"
                    f"        return archive(self.{names[-1]});\n    }}\n{members}\n}};")
        else:
            raise Exception(style)
        idm = f"    static void id(Enc & e) {{ {vid[1]}; }}\n" if vid else ""
        tie = ", ".join("s." + n for n in names)
        fresh = f"    static {full} fresh() {{ return {full}{{}}; }}\n" if style != "nodefault" else f"    static {full} fresh() {{ return {full}(); }}\n"
        h = all(p.hostile for p in parts); o = all(p.ordered for p in parts)
        # wrapped in namespace t / closed again for the model
        text = (f"namespace t\n{{\n{body}\n}}\n"
                f"template <> struct model::M<{full}> : model::StructModel<{full}, model::M<{full}>>\n{{\n{fresh}"
                f"    static auto tie(auto & s) {{ return std::tie({tie}); }}\n{idm}"
                f"    static constexpr bool hostile = {str(h).lower()}, ordered = {str(o).lower()};\n"
                f"    static constexpr std::size_t min_bytes = 0;\n}};\n")
        if vid:
            text = "using namespace zpp::bits::literals;\n" + text
        defs = []
        for p in parts:
            for x in p.defs:
                if x not in defs: defs.append(x)
        copy = all(p.copy for p in parts)
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        return T(full, h, o, style != "nodefault", copy, defs=defs + [text], kind=kind, message=any(p.message for p in parts))

SZ = {"std::int8_t":1,"std::uint8_t":1,"std::int16_t":2,"std::uint16_t":2,"std::int32_t":4,"std::uint32_t":4,
      "std::int64_t":8,"std::uint64_t":8,"char":1,"unsigned char":1,"signed char":1,"std::byte":1,"char8_t":1,
      "char16_t":2,"char32_t":4,"wchar_t":4,"float":4,"double":8,"t::e8":1,"t::e8s":1,"t::e16":2,"t::e32":4,"t::e32u":4,"t::e64":8}

def tu(types, header="configs.hpp"):
    """A translation unit registering (type, config) pairs."""
    out = [f'#include "{header}"', PRELUDE]
    seen = set()
    for t, _ in types:
        for d in t.defs:
            if d not in seen:
                seen.add(d); out.append(d)
    i = 0
    for t, cfgs in types:
        for c in cfgs:
            nm = t.cpp.replace('"', '\\"')
            out.append(f'static ops::Register<{t.cpp}, cfgs::{c}> reg{i}{{"{nm}", {str(t.hostile).lower()}, {str(t.ordered).lower()}, {str(t.message).lower()}}};')
            i += 1
    return "\n".join(out) + "\n"


def core(g):
    """A fixed list of types that has every kind and every library branch in it, built with generator g (for names)."""
    m = g.mk
    S = lambda c, **k: m("scalar", c, hostile=c != "bool", scalar=True, fixed=True, **k)
    def seq(kind, e): return m(kind, f"std::{kind}<{e.cpp}>", [e])
    def arr(e, n): return m("array", f"std::array<{e.cpp}, {n}>", [e])
    def opt(e): return m("optional", f"std::optional<{e.cpp}>", [e])
    def st(style, *parts, vid=None):
        nm = g.name(); return g.emit(nm, "t::" + nm, style, list(parts), vid, "struct_" + style)
    def var(*p): return m("variant", f"std::variant<{', '.join(x.cpp for x in p)}>", p)
    def vi(t): return m("varint", f"zpp::bits::varint<{t}>")
    def zz(t): return m("varint_zz", f"zpp::bits::varint<{t}, zpp::bits::varint_encoding::zig_zag>")
    def bs(n): return m("bitset", f"std::bitset<{n}>")
    def sized(c, s): return m("sized", f"zpp::bits::sized_t<{c.cpp}, {s}>", [c])
    def assoc(kind, *a, ordered=True):
        t = m(kind, f"std::{kind}<{', '.join(x.cpp for x in a)}>", a); t.ordered = t.ordered and ordered; return t
    u8, u16, u32, u64 = (S(f"std::uint{n}_t") for n in (8, 16, 32, 64))
    i8, i16, i32, i64 = (S(f"std::int{n}_t") for n in (8, 16, 32, 64))
    f, dbl, boolean, byte = S("float"), S("double"), S("bool"), S("std::byte")
    string = m("string", "std::string")
    out = []
    # scalars of every width in structs of every style
    out += [st("agg", u8, i16, boolean, u64, f, S("char"), dbl, i32, S("t::e8"), S("t::e16"), S("char16_t"), S("char32_t"), S("wchar_t"), byte, i8),
            st("expl", i64, S("t::e32"), S("t::e64"), S("t::e32u"), S("t::e8s"), u16, S("char8_t"), S("signed char"))]
    pod = st("agg", u16, u16, S("t::e16"))
    podpad = st("agg", u8, u32, u16)
    podpriv = st("priv_members", u32, u32)
    pod2 = st("agg", arr(u16, 2), pod)
    nodef = st("nodefault", u16, string)
    emp = m("empty", "t::empty")
    cstruct = st("agg_members", T("std::uint16_t[3]"), T("t::e16[2]"), u8)
    cstruct2 = st("agg_adl", T("std::string[2]"), u16)
    out += [pod2, podpad, podpriv, cstruct, cstruct2, st("agg", emp, u16, string), st("agg", podpad, pod, podpriv)]
    # strings and sequences: bulk (bytes, wide) and element-wise
    out += [string, m("string", "std::u16string"), m("string", "std::wstring"), m("string", "std::u8string"),
            seq("vector", u8), seq("vector", byte), seq("vector", u16), seq("vector", i64), seq("vector", dbl), seq("vector", S("t::e16")),
            seq("vector", pod), seq("vector", podpad), seq("vector", podpriv), seq("vector", string), seq("vector", emp),
            seq("vector", seq("vector", u32)), seq("vector", opt(u16)), seq("vector", bs(9)), seq("vector", vi("std::uint32_t")),
            seq("deque", u32), seq("deque", string), seq("list", u16), seq("list", podpad),
            arr(u16, 3), arr(string, 2), arr(podpad, 2), arr(arr(u32, 2), 2), arr(boolean, 4)]
    # associative
    out += [assoc("map", u32, string), assoc("map", string, seq("vector", u16)), assoc("set", u16), assoc("set", string),
            assoc("multimap", u8, u32), assoc("multiset", i16), assoc("unordered_map", string, u32, ordered=False),
            assoc("unordered_set", u64, ordered=False), assoc("map", i8, assoc("map", u16, opt(string)))]
    out += [assoc("unordered_multimap", u16, u32, ordered=False), assoc("unordered_multiset", u16, ordered=False)]
    # containers of the user's own
    def own(kind, *e): return m("user_" + kind, f"u::{kind}<{', '.join(x.cpp for x in e)}>", list(e))
    out += [own("vec", u16), own("vec", string), own("chain", u32), own("derived_vec", byte), own("derived_map", u16, string),
            st("agg", own("vec", u8), own("chain", string)), sized(own("vec", u32), "std::uint8_t")]
    # optionals, pointers, products
    out += [opt(u32), opt(string), m("optional_nodefault", f"std::optional<{nodef.cpp}>", [nodef]), opt(opt(u16)), opt(seq("vector", u64)),
            m("unique_ptr", "std::unique_ptr<std::uint32_t>", [u32], copy=False), m("shared_ptr", "std::shared_ptr<std::string>", [string]),
            m("optional_ptr", "zpp::bits::optional_ptr<std::uint64_t>", [u64], copy=False),
            m("optional_ptr", f"zpp::bits::optional_ptr<{pod.cpp}>", [pod], copy=False),
            m("shared_ptr", f"std::shared_ptr<{nodef.cpp}>", [st("agg", u16, u64)]) if False else m("unique_ptr", f"std::unique_ptr<{pod2.cpp}>", [pod2], copy=False),
            m("pair", "std::pair<std::uint16_t, std::string>", [u16, string]), m("tuple", "std::tuple<std::uint8_t, std::uint32_t, std::string, std::uint16_t>", [u8, u32, string, u16]),
            m("tuple", "std::tuple<std::uint16_t, std::uint16_t>", [u16])]
    # variants: by index, with ids of every kind
    out += [var(u16, string), var(string, seq("vector", u16), opt(u32), nodef, m("tuple", "std::tuple<std::uint8_t>", [u8])),
            var(m("mono", "std::monostate"), u64)]
    for ids in ([("serialization_id<std::uint8_t(7)>", "e.value(std::uint8_t(7))"), ("serialization_id<std::uint8_t(0)>", "e.value(std::uint8_t(0))"), ("serialization_id<std::uint8_t(255)>", "e.value(std::uint8_t(255))")],
                [("serialization_id<std::uint32_t(0x01020304)>", "e.value(std::uint32_t(0x01020304))"), ("serialization_id<std::uint32_t(0x04030201)>", "e.value(std::uint32_t(0x04030201))")],
                [("serialization_id<t::e16(std::int16_t(-300))>", "e.value(std::int16_t(-300))"), ("serialization_id<t::e16(std::int16_t(1000))>", "e.value(std::int16_t(1000))")],
                [('id<"abc"_s>', 'e.raw("abc", 3)'), ('id<"abd"_s>', 'e.raw("abd", 3)')],
                [('id<"alternative1"_s>', 'e.raw("alternative1", 12)'), ('id<"alternative2"_s>', 'e.raw("alternative2", 12)')]):
        ps = [st(("agg", "priv_members", "agg_members")[i % 3], (u16, string, u32)[i % 3], (string, u8, u8)[i % 3], vid=x) for i, x in enumerate(ids)]
        out.append(m("variant_ids", f"std::variant<{', '.join(x.cpp for x in ps)}>", ps))
    # bitsets, varints
    out += [st("agg", bs(1), bs(8), bs(9), bs(16), bs(31), bs(64), bs(65), bs(200)),
            st("agg", vi("std::uint8_t"), vi("std::int16_t"), vi("std::uint32_t"), vi("std::int64_t"), vi("std::uint64_t"), zz("std::int32_t"), zz("std::int64_t"), zz("std::int16_t"), vi("t::e32"), m("varint", "zpp::bits::vsize_t"))]
    # protobuf messages as items
    point, text, packed, nest = (m("message", "pm::" + n, message=True) for n in ("point", "text", "packed", "nest"))
    out += [st("agg", u16, point, text, u8), st("priv_members", packed, string), nest, seq("vector", point), arr(point, 2), opt(text),
            assoc("map", u16, text), var(u8, nest, packed), m("unique_ptr", f"std::unique_ptr<{nest.cpp}>", [nest], copy=False)]
    # size policies of single items
    for s in ("std::uint8_t", "std::uint16_t", "std::uint32_t", "std::uint64_t", "zpp::bits::vsize_t"):
        out.append(sized(seq("vector", u16), s))
    out += [sized(string, "std::uint8_t"), sized(assoc("map", u16, string), "std::uint16_t"), sized(seq("deque", podpad), "zpp::bits::vsize_t"),
            sized(assoc("set", u32), "std::uint64_t"),
            m("sized_alias", "zpp::bits::vector1b<std::uint32_t>", [u32]), m("sized_alias", "zpp::bits::native_vector<std::uint8_t>", [u8])]
    # deeper combinations
    out += [st("expl_split", seq("vector", st("agg", string, opt(u16), seq("vector", pod))), assoc("map", u8, var(u8, string)), dbl),
            st("expl_adl", opt(st("agg", u8, string)), arr(opt(u8), 3), u32),
            seq("vector", st("agg", m("unique_ptr", "std::unique_ptr<std::string>", [string], copy=False), u16)),
            seq("vector", m("pair", "std::pair<std::uint8_t, std::uint32_t>", [u8, u32]))]
    return out


def battery(seed, cfg_list, n_random, depth=3, per_type=1, core_fraction=1.0, max_defs=14, r=None):
    """(type, configs) pairs: the core list with configs dealt in turn (rotated by the seed), and random types."""
    r = r or random.Random(seed)
    g = Gen(seed * 7919 + 17)
    out = []
    c = core(g)
    if core_fraction < 1: c = r.sample(c, int(len(c) * core_fraction))
    k = 0
    cf = list(cfg_list)
    r.shuffle(cf)
    for t in c:
        out.append((t, [cf[(k + j) % len(cf)] for j in range(per_type)])); k += per_type
    g2 = Gen(seed * 104729 + 1, prefix="R")
    made = 0
    while made < n_random:
        t = g2.any(depth)
        if len(t.defs) > max_defs or t.scalar: continue
        made += 1
        out.append((t, [cf[(k + j) % len(cf)] for j in range(per_type)])); k += per_type
    return out, g2.kinds


def split(pairs, n):
    """Deal pairs into n translation units of similar cost."""
    bins = [[] for _ in range(n)]
    cost = [0.0] * n
    for t, c in sorted(pairs, key=lambda p: -(len(p[1]) * (1 + 0.05 * sum(len(d) for d in p[0].defs) ** .5 + 0.02 * len(p[0].cpp)))):
        w = len(c) * (1 + 0.05 * sum(len(d) for d in t.defs) ** .5 + 0.02 * len(t.cpp))
        i = cost.index(min(cost))
        bins[i].append((t, c)); cost[i] += w
    return [b for b in bins if b]
