"""Random protobuf messages: the C++ types, their field models and the .proto schema."""
import random

PRELUDE = '''#include "%s.hpp"
namespace pbt
{
enum class e32 : std::int32_t { zero, one, minus = -1 };
enum class eu32 : std::uint32_t { zero, one, big = 0xfffffff0u };
enum class e16 : std::int16_t { zero, one, minus = -300 };
enum class e8 : std::int8_t { zero, minus = -1 };
enum class eu8 : std::uint8_t { zero, big = 200 };
enum plain { p0, p1, p7 = 7 };
}
template <> struct pb::PF<pbt::plain> : pb::ScalarField<pbt::plain>
{
    static constexpr int wire = pb::VARINT;
    static std::uint64_t number(pbt::plain v) { return std::uint64_t(v); }
    static std::uint64_t raw(pbt::plain v) { return std::uint64_t(v); }
    static void gen(pb::G & g, pbt::plain & v) { v = pbt::plain(g.src.below(8)); }
};
'''
Z = "zpp::bits::"
SCALARS = [  # C++, schema, weight
    (Z + "vint32_t", "int32", 3), (Z + "vint64_t", "int64", 3), (Z + "vuint32_t", "uint32", 2), (Z + "vuint64_t", "uint64", 2), (Z + "vsize_t", "uint64", 1),
    (Z + "vsint32_t", "sint32", 2), (Z + "vsint64_t", "sint64", 2), ("std::int32_t", "sfixed32", 1), ("std::uint32_t", "fixed32", 1),
    ("std::int64_t", "sfixed64", 1), ("std::uint64_t", "fixed64", 1), ("float", "float", 1), ("double", "double", 1), ("bool", "bool", 2),
    ("pbt::e32", "E", 2), ("pbt::eu32", "E", 1), ("pbt::e16", "E", 1), ("pbt::e8", "E", 1), ("pbt::eu8", "E", 1), ("pbt::plain", "E", 1),
]
KEYS = [(Z + "vint32_t", "int32"), (Z + "vint64_t", "int64"), (Z + "vuint32_t", "uint32"), (Z + "vsint64_t", "sint64"), ("std::int32_t", "sfixed32"),
        ("std::uint64_t", "fixed64"), ("bool", "bool"), ("std::string", "string"), ("std::string", "string"), ("pbt::e32", "int32"), ("pbt::e16", "int32")]
BYTES = ["std::string"] * 5 + ["std::vector<std::byte>", "std::vector<unsigned char>", "std::vector<char>", "std::deque<std::byte>", "std::vector<signed char>"]


class Msg:
    def __init__(self, name):
        self.name, self.members, self.hostile, self.equal, self.depth, self.has = name, [], True, True, 0, set()


class Gen:
    def __init__(self, seed, package, prop):
        self.r, self.package, self.messages, self.prop = random.Random(seed), package, [], prop
        self.cpp, self.models, self.proto = [], [], []

    def scalar(self):
        while True:  # for malformed input, mostly types without invalid values
            c = self.r.choices([(c, p) for c, p, _ in SCALARS], [w for _, _, w in SCALARS])[0]
            if self.prop != "c21" or c[0] not in ("bool", "pbt::plain") or self.r.random() < .08: return c

    # (C++ type, .proto type, prefix of the name, map?)
    def field(self, m, self_ok):
        r = self.r
        k = r.random()

        def note(c, hostile=True):
            if c in ("bool", "pbt::plain"): m.hostile = False
            return c
        if k < .34:
            c, p = self.scalar()
            return note(c), p, "f"
        if k < .46:
            return r.choice(BYTES), "bytes", "f"
        if k < .58 and any(not x.nua for x in self.messages):
            x = r.choice([x for x in self.messages if not x.nua])
            m.hostile &= x.hostile
            m.depth = max(m.depth, x.depth + 1)
            m.has |= x.has
            return x.name, x.name, "f"
        if k < .84:
            c = r.choice(["vector"] * 5 + ["list", "deque", "set", "multiset", "unordered_set"])
            x = r.random()
            if c == "unordered_set":
                t, p = r.choice([("std::int32_t", "sfixed32"), ("std::uint64_t", "fixed64"), ("std::string", "bytes"), ("std::int64_t", "sfixed64"), ("pbt::e32", "E")])
            elif x < .55 or (c in ("set", "multiset") and x < .8):
                while True:
                    t, p = self.scalar()
                    if t == "bool" and c in ("vector",): continue
                    if t in ("float", "double") and "set" in c: continue
                    break
                note(t)
            elif x < .75 or "set" in c:
                t, p = ("std::string" if r.random() < .6 else "std::vector<std::byte>"), "bytes"
            elif x < .85 and self_ok and c in ("vector", "list"):
                t = p = m.name
                m.has.add("self")
            elif self.messages:
                y = r.choice(self.messages)
                m.hostile &= y.hostile
                m.depth = max(m.depth, y.depth + 1)
                m.has |= y.has
                t = p = y.name
            else:
                t, p = "std::string", "bytes"
            m.has.add("repeated")
            return f"std::{c}<{t}>", "repeated " + p, {"set": "set", "unordered_set": "set", "multiset": "mset"}.get(c, "f")
        kt, kp = r.choice([k for k in KEYS if k[0] != "bool" or self.prop != "c21"])
        note(kt)
        x = r.random()
        if x < .5:
            vt, vp = self.scalar()
            note(vt)
        elif x < .75 or not self.messages:
            vt, vp = ("std::string" if r.random() < .7 else "std::vector<std::byte>"), "bytes"
        else:
            y = r.choice(self.messages)
            m.hostile &= y.hostile
            m.depth = max(m.depth, y.depth + 1)
            m.has |= y.has
            vt = vp = y.name
        c = "unordered_map" if r.random() < .3 and kt in ("std::int32_t", "std::uint64_t", "std::string") else "map"
        m.has.add("map")
        if kp == "string": m.has.add("string_key")
        return f"std::{c}<{kt}, {vt}>", f"map<{kp}, {vp}>", "f"

    def message(self, fields):
        r = self.r
        m = Msg(f"M{len(self.messages)}")
        style = r.choice(["serialize", "members", "protocol", "adl", "friend", "inside"])
        self_ok = style != "adl" and fields <= 12 and r.random() < .4
        big = lambda: r.choice([lambda: r.randint(1, 40), lambda: r.randint(16, 3000), lambda: r.randint(20000, 2**29 - 1), lambda: 2**29 - 1])()
        entries = []  # kind, C++ type, proto, prefix
        for i in range(fields):
            if r.random() < .08:
                entries.append(["reserved", None, None, None])
            else:
                entries.append(["field", *self.field(m, self_ok)])
        if all(e[0] == "reserved" for e in entries):  # clang 18 crashes on members of such types
            entries = [["field", *self.field(m, self_ok)] if e[0] == "reserved" and i == 0 else e for i, e in enumerate(entries)]
        # numbers
        mode = r.choice(["implicit", "implicit", "field", "some", "map"])
        used, maps = set(), []
        for i, e in enumerate(entries):
            e.append(i + 1)
        def fresh():
            while True:
                n = big()
                if n not in used and not (19000 <= n <= 19999) and n > fields: return n
        explicit = [False] * fields
        for i, e in enumerate(entries):
            if e[0] == "reserved": continue
            if mode == "field" or (mode == "some" and r.random() < .4):
                explicit[i] = True
                e[4] = fresh()
                used.add(e[4])
            elif mode == "map" and r.random() < .5:
                e[4] = fresh()
                used.add(e[4])
                maps.append((i + 1, e[4]))
        if mode == "map" and len(maps) > 1 and r.random() < .5:  # permute the mapped numbers among themselves and back to small ones
            froms = [f for f, _ in maps]
            tos = froms[1:] + froms[:1]
            maps = list(zip(froms, tos))
            for f, t in maps: entries[f - 1][4] = t
        r.shuffle(maps)
        # the options of the protocol
        options = ", ".join(f"{Z}pb_map<{f}, {t}>{{}}" for f, t in maps)
        if maps and style in ("serialize", "members"): style = "protocol"
        if style == "serialize": decl = f"using serialize = {Z}pb_protocol;"
        elif style == "members": decl = f"using serialize = {Z}pb_members<{fields}>;"
        elif style == "protocol": decl = f"using serialize = {Z}protocol<{Z}pb{{{options}}}{', %d' % fields if r.random() < .5 else ''}>;"
        elif style == "friend": decl = None
        elif style == "inside": decl = f"using serialize = {Z}protocol<{Z}pb{{{options}}}, {fields}>;" if r.random() < .5 else f"using serialize = {Z}protocol<{Z}pb{{{options}}}>;"
        else: decl = None
        # clang 18 miscompiles the initialization of overlapping empty members in or next to members of message type
        nua = "" if any(e[0] == "field" and any(e[1] == x.name for x in self.messages) for e in entries) else "[[no_unique_address]] "
        m.nua = bool(nua) and any(e[0] == "reserved" for e in entries)
        body = []
        for i, (kind, t, p, prefix, n) in enumerate(entries):
            if kind == "reserved": body.append(f"    {nua}{Z}pb_reserved x{i};")
            elif explicit[i]: body.append(f"    {Z}pb_field<{t}, {n}> x{i}{{}};")
            else: body.append(f"    {t} x{i}{{}};")
        full = f"{self.package}::{m.name}"
        if style == "friend":
            lines = [f"class {m.name}", "{", *body, "public:", f"    friend {Z}access; friend pb::PBM<{full}>;", f"    using serialize = {Z}protocol<{Z}pb{{{options}}}, {fields}>;", "};"]
            if r.random() < .5:
                lines[0] = f"struct {m.name}"
                lines.insert(2, "private:")
        else:
            lines = [f"struct {m.name}", "{"]
            if decl and style != "inside": lines.append("    " + decl)
            lines += body
            if style == "inside": lines.append("    " + decl)
            lines.append("};")
            if style == "adl": lines.append(f"auto serialize(const {m.name} &) -> {Z}protocol<{Z}pb{{{options}}}>;")
        self.cpp.append(f"namespace {self.package} {{ struct {m.name}; }}" if style != "friend" else f"namespace {self.package} {{ class {m.name}; }}" if "class" in lines[0] else f"namespace {self.package} {{ struct {m.name}; }}")
        visit, proto = [], []
        for i, (kind, t, p, prefix, n) in sorted(enumerate(entries), key=lambda e: e[1][4]):
            if kind == "reserved": continue
            member = f"m.x{i}"
            if explicit[i]: member = f"{Z}pb_value({member})"
            visit.append(f"        f({n}u, {member});")
            packed = ""
            if p.startswith("map<string"):
                if self.prop == "c21":
                    v = p[len("map<string, "):-1]
                    proto.append(f"  message Entry{n} {{ bytes key = 1; {v} value = 2; }}")
                    proto.append(f"  repeated Entry{n} map{n} = {n};")
                    continue
            elif p.startswith("repeated ") and r.random() < .3 and p.split()[1] not in ("bytes",) and not p.split()[1].startswith("M"):
                packed = r.choice([" [packed = false]", " [packed = true]"])
            proto.append(f"  {p} {prefix}{n} = {n}{packed};")
        model = [f"template <> struct pb::PBM<{full}>", "{", f'    static constexpr const char * name = "{self.package}.{m.name}";',
                 f"    static constexpr bool hostile = {str(m.hostile).lower()};",
                 "    static void visit(auto & m, auto && f)", "    {", "        (void)m; (void)f;", *visit, "    }", "};"]
        # the model is declared before the type's definition when the type befriends it
        self.cpp.append(f"template <> struct pb::PBM<{full}>;")
        self.cpp.append(f"namespace {self.package}\n{{\n" + "\n".join(lines) + "\n}")
        self.cpp.append("\n".join(model))
        self.proto.append(f"message {m.name} {{\n" + "\n".join(proto) + "\n}")
        self.messages.append(m)
        return m


CFGS = ["plain", "big", "s8", "svarint", "big_svarint", "plain_string", "s2", "nosize", "big_nosize", "little_svarint", "big_s8", "native", "plain_uchar"]


def unit(prop, seed, index, count, configs):
    r = random.Random(seed * 7919 + index)
    package = f"p{index}"
    g = Gen(seed * 104729 + index, package, prop)
    for i in range(count):
        fields = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12]) if i else r.choice([0, 1, 2, 3])
        if i == count - 1 and index % 8 == 3: fields = 30
        g.message(fields)
    text = PRELUDE % prop + "\n".join(g.cpp) + "\n"
    text += f'static pbo::Schema schema_{package}{{"{package}", R"x(syntax = "proto3";\npackage {package};\nenum E {{ zero = 0; one = 1; }}\n' + "\n".join(g.proto) + '\n)x"};\n'
    last = g.messages[1:] if count > 2 else g.messages
    for i, m in enumerate(g.messages):
        for c in r.sample(CFGS, configs):
            text += f"PB_CASES({package}::{m.name}, {package}_{m.name}, {c}, {r.randrange(36)})\n"
    return (f"{prop}_{index}.cpp", text)


def units(prop, seed, n, count, configs):
    return [unit(prop, seed, i, count, configs) for i in range(n)]
