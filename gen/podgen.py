"""C24: trivially copyable types of every kind (eligible for byte copies or not) in every kind of carrier."""
import random
from typegen import PRELUDE as TYPES, SCALARS, SZ

PRELUDE = '''#include "c24.hpp"
'''
SCAL = SCALARS


class PodGen:
    def __init__(self, seed, prefix):
        self.r, self.n, self.prefix = random.Random(seed), 0, prefix
        self.text = []
        self.all = []      # (name, copyable whole, no custom serialization inside)

    def scalar(self, w=None):
        r = self.r
        if w: return r.choice([x for x in SCAL if SZ.get(x) == w and x != "bool"])
        return r.choice(SCAL)

    def member(self, d, w=None):
        """-> (type, is C array)"""
        r = self.r
        x = r.random()
        if x < .42 or d <= 0: return self.scalar(w)
        if x < .52: return f"std::array<{self.scalar(w)}, {r.choice([1, 1, 2, 3, 5])}>"
        if x < .60: return f"{self.scalar(w)}[{r.choice([1, 2, 3, 4])}]"
        if x < .78 and self.all:
            t = r.choice(self.all)
            y = r.random()
            if y < .55: return t
            if y < .75: return f"std::array<{t}, {r.randint(1, 2)}>"
            if y < .93: return f"{t}[{r.randint(1, 2)}]"
            return f"std::array<std::array<{t}, 1>, 2>"
        if x < .84: return r.choice(["p::nil", "p::nil2", "p::nilc", "std::array<p::nil, 1>", "p::nil[2]", "std::array<p::nil, 2>", "std::monostate", "p::wrapnil"])
        if x < .90: return r.choice(["p::tone", "p::hue", "p::tone[2]", "std::array<p::hue, 3>", "p::dial", "p::knob", "std::array<p::tone, 1>"])
        if x < .96: return r.choice(["zpp::bits::varint<std::uint32_t>", "zpp::bits::varint<std::uint16_t>", "zpp::bits::vsint64_t", "std::array<zpp::bits::varint<std::uint32_t>, 2>", "zpp::bits::varint<p::plainenum>"])
        return r.choice(["std::optional<std::uint16_t>", "std::variant<std::uint8_t, std::uint32_t>", "std::bitset<8>", "std::bitset<12>", "std::pair<std::uint8_t, std::uint8_t>", "std::tuple<std::uint16_t, std::uint16_t>",
                         "std::pair<std::uint8_t, std::uint16_t>", "std::tuple<p::nil, std::uint8_t>"])

    def struct(self, d=2):
        r = self.r
        self.n += 1
        nm = f"{self.prefix}{self.n}"
        full = "p::" + nm
        style = r.choices(["agg", "members", "adl", "priv", "all", "swap", "partial", "mark", "expladl", "kinds", "kindsadl"], [9, 5, 3, 3, 1, 2, 1, 1, 1, 1, 1])[0]
        k = r.choices([1, 2, 3, 4, 5, 6, 8], [4, 6, 6, 4, 2, 1, 1])[0]
        # one width only (no padding) or any
        w = r.choice([1, 2, 4, 8]) if r.random() < .6 else None
        parts = [self.member(d, w) for _ in range(k)]
        if w and r.random() < .12: parts[r.randrange(k)] = self.scalar()
        carr = any(p.endswith("]") for p in parts)
        if carr and style == "agg": style = "members"
        unique = [("[[no_unique_address]] " if p in ("p::nil", "p::nil2") and r.random() < .3 else "") for p in parts]
        names = [f"m{i}" for i in range(k)]

        def decl(p, n, u):
            if p.endswith("]"):
                b, a = p.rsplit("[", 1)
                return f"    {u}{b} {n}[{a}{{}};"
            return f"    {u}{p} {n}{{}};"
        al = r.choice(["alignas(8) ", "alignas(16) ", "alignas(4) "]) if r.random() < .07 else ""
        if al == "alignas(4) ": al = "alignas(4) alignas(8) "
        m = "\n".join(decl(*x) for x in zip(parts, names, unique))
        tie = list(names)
        sargs = lambda o, ns: ", ".join(f"{o}.{n}" for n in ns)
        fr = f"    friend struct ::model::M<{full}>;\n    friend zpp::bits::access;\n"
        before = after = ""
        if style == "agg": body = m
        elif style == "members": body = f"    using serialize = zpp::bits::members<{k}>;\n{m}"
        elif style == "adl": body, after = m, f"auto serialize(const {nm} &) -> zpp::bits::members<{k}>;"
        elif style == "priv": body = f"    {nm}() = default;\n    using serialize = zpp::bits::members<{k}>;\nprivate:\n{fr}{m}"
        elif style in ("all", "swap", "partial", "mark"):
            if style == "swap": tie.reverse()
            if style == "partial": tie = tie[:max(1, k - 1)]
            if style == "mark": body = f"    constexpr static auto serialize(auto & archive, auto & self)\n    {{\n        std::uint8_t mark = 0x5a;\n        return archive(mark, {sargs('self', tie)});\n    }}\n{m}"
            else: body = f"    constexpr static auto serialize(auto & archive, auto & self) {{ return archive({sargs('self', tie)}); }}\n{m}"
        elif style == "kinds":
            tie.reverse()
            body = (f"    template <typename A> requires(std::remove_cvref_t<A>::kind() == zpp::bits::kind::in)\n    constexpr static auto serialize(A & archive, auto & self) {{ return archive({sargs('self', tie)}); }}\n"
                    f"    template <typename A> requires(std::remove_cvref_t<A>::kind() == zpp::bits::kind::out)\n    constexpr static auto serialize(A & archive, auto & self) {{ return archive({sargs('self', tie)}); }}\n{m}")
        else:
            tie.reverse()
            body = m
            if style == "expladl":
                after = "\n".join(f"constexpr auto serialize(auto & archive, {c}{nm} & s) {{ return archive({sargs('s', tie)}); }}" for c in ("", "const "))
            else:
                after = (f"template <typename A> requires(std::remove_cvref_t<A>::kind() == zpp::bits::kind::in)\nconstexpr auto serialize(A & archive, {nm} & s) {{ return archive({sargs('s', tie)}); }}\n"
                         f"template <typename A> requires(std::remove_cvref_t<A>::kind() == zpp::bits::kind::out)\nconstexpr auto serialize(A & archive, const {nm} & s) {{ return archive({sargs('s', tie)}); }}")
        kw = "class" if style == "priv" else "struct"
        pub = "public:\n" if style == "priv" else ""
        enc = f"    static void enc(const {full} & s, Enc & e) {{ e.byte(0x5a); model::StructModel<{full}, model::M<{full}>>::enc(s, e); }}\n" if style == "mark" else ""
        self.text.append(f"namespace p\n{{\n{kw} {al}{nm}\n{{\n{pub}{body}\n}};\n{after}\n}}\n"
                         f"template <> struct model::M<{full}> : model::StructModel<{full}, model::M<{full}>>\n{{\n    static {full} fresh() {{ return {full}{{}}; }}\n"
                         f"    static auto tie(auto & s) {{ return std::tie({sargs('s', tie)}); }}\n{enc}    static constexpr bool hostile = false, ordered = true;\n    static constexpr std::size_t min_bytes = 0;\n}};\n")
        self.all.append(full)
        return full, style, all(p in SZ for p in parts)


CARRIERS = ["std::vector<%s>", "std::array<%s, 3>", "std::deque<%s>", "std::list<%s>", "std::map<std::uint16_t, %s>", "std::optional<%s>", "std::tuple<std::uint8_t, %s>", "std::variant<std::uint8_t, %s>",
            "std::vector<std::array<%s, 2>>", "std::vector<std::vector<%s>>", "std::array<std::array<%s, 2>, 2>", "std::unique_ptr<%s>", "zpp::bits::sized_t<std::vector<%s>, std::uint16_t>", "std::pair<%s, %s>",
            "std::vector<std::optional<%s>>", "std::vector<std::pair<std::uint16_t, %s>>", "std::unordered_map<std::uint8_t, %s>", "std::array<%s, 1>", "std::vector<std::tuple<%s>>"]
LITTLE = ["plain", "plain_char", "plain_uchar", "plain_string", "little", "native", "s1", "s2", "s8", "svarint"]
BIG = ["big", "network", "swapped", "big_s1", "big_s2", "big_s8", "big_svarint"]


def units(prefix, seed, count, types):
    out = []
    for u in range(count):
        g = PodGen(seed * 131 + u, f"X{u}_")
        r = random.Random(seed * 977 + u)
        regs = []

        def cfgs(): return [r.choice(LITTLE), r.choice(BIG)]
        for _ in range(types):
            full, style, plain = g.struct(r.choice([0, 1, 1, 2, 2]))
            for c in cfgs():
                regs.append((full, f"C24({{n}}, {c}, {full})"))
            if r.random() < .8:
                regs.append((full, f"C24({{n}}, {r.choice(LITTLE)}, {'std::vector<%s>' % full})"))
            x = r.choice(CARRIERS)
            x = x.replace("%s", full)
            for c in cfgs()[:1 if r.random() < .7 else 2]:
                regs.append((full, f"C24({{n}}, {c}, {x})"))
            regs.append((full, f"C24_ARRAYS({{n}}, {r.choice(LITTLE if r.random() < .7 else BIG)}, {full})"))
            if plain and style in ("agg", "members", "adl", "priv", "swap"):
                regs.append((full, f"C24_BYTES({{n}}, {r.choice(LITTLE)}, {full})"))
        e = r.choice([x for x in SCAL if x != "bool"])   # vector<bool> has no bytes
        regs.append((e, f"C24_BYTES({{n}}, {r.choice(LITTLE)}, {e})"))
        regs.append(("b", f"C24_BYTES({{n}}, {r.choice(BIG)}, {r.choice(['std::byte', 'char', 'unsigned char'])})"))
        regs.append(("v", f"C24_VIEWS({{n}}, {r.choice(['plain_char', 's2', 'network', 'big_s1', 'plain_string'])})"))
        regs.append(("d", f"C24_DOC({{n}}, {r.choice(LITTLE)})"))
        text = PRELUDE + TYPES + "\n".join(g.text) + "\n" + "\n".join(l.replace("{n}", f"u{u}_{i}") for i, (_, l) in enumerate(regs)) + "\n"
        out.append((f"{prefix}{u:02d}.cpp", text))
    return out
