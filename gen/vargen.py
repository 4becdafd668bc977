"""Generates variant types with index ids and user supplied ids for C10."""
import hashlib
import random

BODIES = [  # (members, M-compatible member types)
    ["std::uint8_t"], ["std::uint32_t"], ["std::string"], ["std::uint16_t", "std::string"], ["std::vector<std::uint16_t>"],
    ["double", "std::uint8_t"], ["std::optional<std::string>", "std::uint16_t"], ["std::array<std::uint16_t, 3>"],
    ["std::unique_ptr<std::uint32_t>"], ["std::uint8_t", "std::uint64_t"], ["std::map<std::uint8_t, std::string>"], ["zpp::bits::vint32_t"],
    ["std::variant<std::uint8_t, std::string>"], ["std::vector<std::string>"], ["std::bitset<11>"], ["std::shared_ptr<std::string>", "std::uint8_t"],
    ["std::tuple<std::uint8_t, std::string>"], [],
]
PLAIN = ["std::uint8_t", "std::uint16_t", "std::string", "std::vector<std::uint32_t>", "std::uint64_t", "items::point", "items::padded", "items::mixed",
         "double", "std::monostate", "std::optional<std::uint8_t>", "std::array<std::uint8_t, 5>", "std::bitset<20>", "std::map<std::uint16_t, std::uint8_t>",
         "zpp::bits::vuint64_t", "items::hidden", "std::int8_t", "bool", "std::vector<std::string>"]
CFGS = [("plain", "false", "model::SP_4", ""), ("big", "true", "model::SP_4", "zpp::bits::endian::big{}"), ("big_s1", "true", "model::SP_1", "zpp::bits::endian::big{}, zpp::bits::size1b{}"),
        ("svarint", "false", "model::SP_VARINT", "zpp::bits::size_varint{}"), ("little", "false", "model::SP_8", "zpp::bits::endian::little{}, zpp::bits::size8b{}")]


def cbytes(b):
    return "{" + ",".join("0x%02x" % x for x in b) + "}"


class Ids:
    """An id scheme: yields (declaration for the class, ADL or not, argument for known_id, id bytes)."""

    def __init__(self, r, scheme):
        self.r, self.scheme, self.seen = r, scheme, set()
        self.width = r.choice([3, 6, 9, 10, 12, 16])
        self.trunc = r.choice([1, 2, 3, 4, 5, 7, 8, 12])

    def one(self):
        r, s = self.r, self.scheme
        while True:
            if s == "u32":
                v = r.choice([r.randrange(0, 300), r.randrange(1 << 31)])
                args, b = str(v), v.to_bytes(4, "little")
            elif s == "i32near":  # ids that differ in one byte only
                v = 0x01020304 ^ (r.randrange(256) << r.choice([0, 8, 16]))
                args, b = str(v), v.to_bytes(4, "little")
            elif s == "u64":
                v = r.choice([r.randrange(4), r.getrandbits(63), (r.getrandbits(31) << 32) | 7])
                args, b = f"std::uint64_t{{{v}u}}", v.to_bytes(8, "little")
            elif s == "u16":
                v = r.randrange(65536)
                args, b = f"std::uint16_t{{{v}}}", v.to_bytes(2, "little")
            elif s == "u8":
                v = r.randrange(256)
                args, b = f"std::uint8_t{{{v}}}", bytes([v])
            elif s == "byte":
                v = r.randrange(256)
                args, b = f"std::byte{{{v}}}", bytes([v])
            elif s == "enum":
                v = r.randrange(65536)
                args, b = f"c10::tag({v})", v.to_bytes(2, "little")
            elif s == "literal":
                t = "".join(r.choice("abcxyz:_0189") for _ in range(self.width))
                if self.seen and r.random() < 0.6:  # close to another one
                    p = list(r.choice(sorted(self.seen)).decode())
                    p[r.choice([0, -1, r.randrange(len(p))])] = r.choice("abcxyz:_0189")
                    t = "".join(p)
                args, b = f'"{t}"_s', t.encode()
            elif s == "sha1":
                t = "t%d" % r.randrange(1000000)
                args, b = f'"{t}"_sha1', hashlib.sha1(t.encode()).digest()
            elif s == "sha256trunc":
                t = "t%d" % r.randrange(1000000)
                args, b = f'"{t}"_sha256, {self.trunc}', hashlib.sha256(t.encode()).digest()[:self.trunc]
            elif s == "sha256int":
                t = "t%d" % r.randrange(1000000)
                args, b = f'"{t}"_sha256_int', hashlib.sha256(t.encode()).digest()[:4]
            elif s == "struct":  # a literal class type: 1 + 4 + 2 bytes without the padding
                a, v, c = r.randrange(256), r.getrandbits(32), r.randrange(65536)
                args, b = f"c10::key{{{a}, {v}u, {c}}}", bytes([a]) + v.to_bytes(4, "little") + c.to_bytes(2, "little")
            else:
                raise KeyError(s)
            if b not in self.seen:
                self.seen.add(b)
                return args, b


SCHEMES = ["u32", "i32near", "u64", "u16", "u8", "byte", "enum", "literal", "literal", "sha1", "sha256trunc", "sha256trunc", "sha256int", "struct", "index", "index", "mixed"]


def variant(r, n, scheme, alts):
    """Source text of one variant description."""
    out = []
    ns = f"v{n}"
    out.append(f"namespace {ns} {{")
    types, models, ids, known = [], [], [], []
    user = scheme not in ("index",)
    gen = Ids(r, "byte" if scheme == "mixed" else scheme) if user else None
    if scheme == "mixed":  # some by index, some by id
        gen.seen = {bytes([i]) for i in range(alts)}
    pool = r.sample(PLAIN, min(alts, len(PLAIN)))
    thrower = r.randrange(alts)
    for i in range(alts):
        own = user and not (scheme == "mixed" and r.random() < 0.5)
        if own:
            args, b = gen.one()
        else:
            args, b = f"std::byte{{{i}}}", bytes([i])
        if not own and i != thrower and i < len(pool) and r.random() < 0.7:
            types.append(pool[i])
        else:
            body = r.choice(BODIES)
            style = r.choice(["inside", "outside"]) if own else "none"
            members = " ".join(f"{t} m{k}{{}};" for k, t in enumerate(body))
            decl = f"using serialize_id = zpp::bits::id<{args}>; " if style == "inside" else ""
            name = f"a{i}"
            kind = "class" if r.random() < 0.3 else "struct"  # class: not default constructible by the variant
            if i == thrower:
                kind = "throw"
            if kind == "struct":
                listing = r.choice(["", f"using serialize = zpp::bits::members<{len(body)}>; "])
                out.append(f"struct {name} {{ {decl}{listing}{members} }};")
            elif kind == "throw":
                out.append(f"struct {name} {{ {decl}using serialize = zpp::bits::members<{len(body)}>; {name}() = default; explicit {name}(c10::thrower) {{ throw 1; }} {members} }};")
            else:
                out.append(f"class {name} {{ friend zpp::bits::access; friend struct ::model::M<{name}>; using serialize = zpp::bits::members<{len(body)}>; {members} "
                           f"{name}() = default; public: {decl}}};")
            if style == "outside":
                out.append(f"auto serialize_id(const {name} &) -> zpp::bits::id<{args}>;")
            types.append(f"{ns}::{name}")
            tie = ", ".join(f"s.m{k}" for k in range(len(body)))
            models.append(f"MODEL_STRUCT({ns}::{name}{', ' if tie else ''}{tie})")
        ids.append(b)
        known.append(args)
    out.append("}")
    out += models
    var = f"std::variant<{', '.join(types)}>"
    scalar = len(ids[0]) in (1, 2, 4, 8)
    out.append(f"namespace {ns} {{ struct desc {{ using type = {var}; static constexpr std::size_t size = {alts}, thrower = {thrower}; static constexpr bool scalar = {str(scalar).lower()};")
    out.append(f"static const Bytes & id(std::size_t i) {{ static const Bytes t[] = {{{', '.join(cbytes(b) for b in ids)}}}; return t[i]; }}")
    out.append("template <typename F> static auto known(std::size_t i, F && f) { switch (i) {")
    for i, k in enumerate(known):
        out.append(f"case {i}: return f([](auto & v) {{ return zpp::bits::known_id<{k}>(v); }}, [](auto & v) {{ return zpp::bits::known_id(zpp::bits::id_v<{k}>, v); }}, std::integral_constant<std::size_t, {i}>{{}});" if i < 12 else "")
    out.append("default: break; } return std::errc{}; }")
    out.append("}; }")
    return "\n".join(out)


def units(seed, n_variants, n_units, big):
    r = random.Random(seed * 77 + 5)
    texts = [[] for _ in range(n_units)]
    schemes = (SCHEMES * (n_variants // len(SCHEMES) + 1))[:n_variants]
    for n in range(n_variants):
        alts = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        text = variant(r, n, schemes[n], alts)
        cfgs = [CFGS[0]] if n % 3 == 0 else []
        cfgs += r.sample(CFGS[1:], 1 if cfgs else 2)
        for c in cfgs:
            text += f"\nC10_CONFIG(v{n}, {c[0]}, {c[1]}, {c[2]}{', ' + c[3] if c[3] else ''})"
        texts[n % n_units].append(text)
    for k, alts in enumerate(big):
        n = n_variants + k
        text = f"C10_BIG(v{n}, {alts})\nC10_CONFIG(v{n}, plain, false, model::SP_4)"
        texts[n % n_units].append(text)
    return [(f"variants{i}.cpp", '#include "c10.hpp"\n' + "\n".join(x) + "\n") for i, x in enumerate(texts) if x]
