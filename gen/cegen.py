"""Types usable in constant evaluation, for C15."""
import random

CFGS = ["plain", "plain_char", "plain_uchar", "little", "native", "big", "swapped", "s1", "s2", "s8", "svarint", "big_s2", "big_s8", "big_svarint"]
INTS = ["std::uint8_t", "std::int8_t", "std::uint16_t", "std::int16_t", "std::uint32_t", "std::int32_t", "std::uint64_t", "std::int64_t"]
LEAVES = INTS * 2 + ["char", "char8_t", "char16_t", "char32_t", "bool", "float", "double", "std::byte", "E8", "E16", "E64"]
VARINTS = ["zpp::bits::vint32_t", "zpp::bits::vint64_t", "zpp::bits::vuint32_t", "zpp::bits::vuint64_t", "zpp::bits::vsint32_t", "zpp::bits::vsint64_t",
           "zpp::bits::varint<std::int16_t>", "zpp::bits::varint<E16>", "zpp::bits::varint<std::uint8_t>", "zpp::bits::varint<std::int8_t, zpp::bits::varint_encoding::zig_zag>"]


ALIASES = {"zpp::bits::vint32_t": "zpp::bits::varint<std::int32_t>", "zpp::bits::vint64_t": "zpp::bits::varint<std::int64_t>", "zpp::bits::vsize_t": "std::uint64_t"}


def canon(t):
    for a, b in ALIASES.items():
        t = t.replace(a, b)
    return t


class CE:
    def __init__(self, r, prefix):
        self.r, self.prefix, self.n, self.defs = r, prefix, 0, []

    def leaf(self):
        r = self.r
        return r.choice(VARINTS) if r.random() < 0.2 else r.choice(LEAVES)

    def any(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return self.leaf()
        k = r.choices(["array", "tuple", "pair", "optional", "vector", "string", "struct", "sized"], [3, 2, 1, 3, 4, 2, 7, 2])[0]
        if k == "array":
            return f"std::array<{self.any(d - 1)}, {r.randint(1, 4)}>"
        if k == "tuple":
            return "std::tuple<" + ", ".join(self.any(d - 1) for _ in range(r.randint(1, 3))) + ">"
        if k == "pair":
            return f"std::pair<{self.any(d - 1)}, {self.any(d - 1)}>"
        if k == "optional":
            return f"std::optional<{self.any(d - 1)}>"
        if k == "vector":
            t = self.any(d - 1)
            while t == "bool":
                t = self.leaf()
            return f"std::vector<{t}>"
        if k == "string":
            return r.choice(["std::string", "std::string", "std::u16string", "std::u8string"])
        if k == "sized":
            t = r.choice(["std::uint8_t", "std::uint16_t", "std::uint32_t", "std::uint64_t", "zpp::bits::vsize_t"])
            return f"zpp::bits::sized_t<std::vector<{self.leaf_not_bool()}>, {t}>" if r.random() < 0.6 else f"zpp::bits::sized_t<std::string, {t}>"
        return self.struct(d)

    def leaf_not_bool(self):
        while (t := self.leaf()) == "bool":
            pass
        return t

    def struct(self, d, members=None, structural=False):
        r = self.r
        nm = f"{self.prefix}{self.n}"
        self.n += 1
        if members is None:
            members = []
            for _ in range(r.randint(1, 5)):
                x = r.random()
                if x < 0.12:
                    members.append((self.leaf(), f"[{r.randint(1, 4)}]"))
                else:
                    members.append((self.any(d - 1) if r.random() < 0.6 else self.leaf(), ""))
        arrays = any(x for _, x in members)
        if structural:
            style = "members" if arrays else "agg"
        else:
            style = r.choice(["agg", "agg", "members", "explicit", "explicit2"][2 * arrays:])
        body = "".join(f"    {t} m{i}{x}{{}};\n" for i, (t, x) in enumerate(members))
        names = ", ".join(f"s.m{i}" for i in range(len(members)))
        if style == "members":
            body += f"    using serialize = zpp::bits::members<{len(members)}>;\n"
        elif style == "explicit":
            body += "    constexpr static auto serialize(auto & archive, auto & self) { return archive(%s); }\n" % names.replace("s.", "self.")
        elif style == "explicit2":
            steps = "".join(f"        if (auto result = archive(self.m{i}); failure(result)) return result;\n" for i in range(len(members)))
            body += "    constexpr static zpp::bits::errc serialize(auto & archive, auto & self)\n    {\n" + steps + "        return {};\n    }\n"
        self.defs.append(f"struct {nm}\n{{\n{body}}};\nK_STRUCT({nm}, {names})\n")
        return nm

    def structural(self, d):
        r = self.r
        members = []
        for _ in range(r.randint(1, 5)):
            x = r.random()
            t = r.choice([t for t in LEAVES])
            if d and x < 0.25:
                members.append((self.structural(d - 1), ""))
            elif x < 0.4:
                members.append((f"std::array<{t}, {r.randint(1, 4)}>", ""))
            elif x < 0.55:
                members.append((t, f"[{r.randint(1, 4)}]"))
            elif x < 0.65:
                members.append((r.choice(VARINTS), ""))
            else:
                members.append((t, ""))
        return self.struct(0, members, structural=True)

    def variant(self, d):
        r = self.r
        alts = []
        while len(alts) < r.randint(2, 4):
            t = self.any(d - 1)
            if canon(t) not in map(canon, alts):
                alts.append(t)
        if r.random() < 0.3:
            alts.insert(0, "std::monostate")
        return "std::variant<" + ", ".join(alts) + ">"

    def pb(self):
        r = self.r
        nm = f"{self.prefix}p{self.n}"
        self.n += 1
        ms = []
        for _ in range(r.randint(1, 5)):
            ms.append(r.choice(["zpp::bits::vint32_t", "zpp::bits::vint64_t", "zpp::bits::vsint32_t", "zpp::bits::vuint64_t", "std::int32_t", "std::uint64_t", "float", "double", "bool",
                                "std::string", "std::vector<zpp::bits::vint32_t>", "std::vector<std::uint32_t>", "std::vector<std::byte>"]))
        body = "".join(f"    {t} m{i}{{}};\n" for i, t in enumerate(ms))
        body += "    using serialize = zpp::bits::%s;\n" % (r.choice(["pb_protocol", "protocol<zpp::bits::pb{}, %d>" % len(ms)]))
        self.defs.append(f"struct {nm}\n{{\n{body}}};\nK_STRUCT({nm}, {', '.join(f's.m{i}' for i in range(len(ms)))})\n")
        return nm


def units(seed, n_types, per_type, seeds_per, n_units, variants, n_literals):
    r = random.Random(seed * 17 + 3)
    out = []
    for u in range(n_units):
        ce = CE(r, f"U{u}S")
        regs = []
        k = 0

        def add(t, size=96, cfgs=None):
            nonlocal k
            for c in cfgs or r.sample(CFGS, per_type):
                ss = ", ".join(f"{r.getrandbits(64)}ull" for _ in range(seeds_per))
                regs.append(f"using t{k} = {t};\nstatic eng::Registrar r{k}{{\"u{u}.{k}.{c}\", &c15::entry<t{k}, cfgs::{c}, {size}, {ss}>::check, \"{t}\"}};\n")
                k += 1
        if u % 3 == 0 and not variants: # (libstdc++ 13 fails to evaluate such strings in arrays)
            add("c15::long_text", 420, [r.choice(["svarint", "big_svarint"])])
            add(r.choice(["std::array<c15::long_text, 2>", "std::vector<c15::long_text>", "std::optional<c15::long_text>"]), 1600, [r.choice(["svarint", "big_svarint", "s2", "plain"])])
        for _ in range(n_types):
            if variants:
                t = ce.variant(2)
                if r.random() < 0.4:
                    t = r.choice([f"std::vector<{t}>", f"std::optional<{t}>", f"std::tuple<std::uint8_t, {t}>"])
                    if t.startswith("std::vector"):
                        pass
                add(t)
            else:
                x = r.random()
                add(ce.pb() if x < 0.12 else ce.struct(2) if x < 0.5 else ce.any(3))
        if not variants:
            for i in range(n_literals):
                t = ce.structural(1)
                regs.append(f"static eng::Registrar l{i}{{\"lit{u}.{i}\", &c15::literal<{t}, {r.getrandbits(63)}ull>::check, \"{t}\"}};\n")
        out.append((f"ce{u}.cpp", '#include "c15.hpp"\n' + "\n".join(ce.defs) + "\nnamespace {\n" + "".join(regs) + "}\n"))
    return out
