"""What each check builds and runs."""
import os
import random
import hashgen
import applygen
import cegen
import graphgen
import groupgen
import membergen
import pbgen
import podgen
import rpcgen
import typegen
import vargen

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASAN = ["-fsanitize=address,return,unreachable", "-fno-sanitize-recover=all"]
UBSAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
LIBCXX = ["-stdlib=libc++"]
COMMON = ["src/engine.cpp"]


class Binary:
    def __init__(self, name, sources, generated=(), flags=(), libs=(), cases=10000, shards=8, cxx="clang++-18", max_s=0):
        self.name, self.sources, self.generated = name, list(sources), list(generated)
        self.flags, self.libs, self.cases, self.shards, self.cxx, self.max_s = list(flags), list(libs), cases, shards, cxx, max_s


class Plan:
    def __init__(self, rule, binaries, rounds=1, budget_s=600, assumptions=(), coverage=None, extra=None):
        self.rule, self.binaries, self.rounds, self.budget_s = rule, binaries, rounds, budget_s
        self.assumptions, self.coverage, self.extra = list(assumptions), coverage, extra


DOMAIN = ["types inside the documented domain, generated by gen/typegen.py (depth at most 4)",
          "x86-64, clang 18 with libc++ (the repository's own build)"]

ALL = typegen.CFGS
HOSTILE_CFGS = ALL
SWAP_PAIRS = [("plain", "big"), ("little", "network"), ("native", "swapped"), ("plain_char", "swapped"), ("s1", "big_s1"),
              ("s2", "big_s2"), ("s8", "big_s8"), ("svarint", "big_svarint"), ("snative", "big_s8"), ("plain", "little"), ("big", "network"),
              ("swapped", "big"), ("plain", "native"), ("s4", "network")]


def ops_units(seed, cfgs, n_random, units, per_type=1, depth=3, pairs=None, mask=15, core_fraction=1.0):
    r = random.Random(seed * 31 + 7)
    if pairs:
        prs, _ = typegen.battery(seed, range(len(pairs)), n_random, depth, per_type, core_fraction, r=r)
        prs = [(t, sorted({c for k in ks for c in pairs[k]})) for t, ks in prs]
    else:
        prs, _ = typegen.battery(seed, cfgs, n_random, depth, per_type, core_fraction, r=r)
    bins = typegen.split(prs, units)
    return [(f"types{i}.cpp", typegen.tu(x)) for i, x in enumerate(bins)]


def ops_plan(prop, source, mask, rule, quick, thorough, flags=ASAN, cfgs=ALL, pairs=None, extra_sources=(), assumptions=()):
    def make(tier, seed):
        p = quick if tier == "quick" else thorough

        def binaries(rnd):
            s = seed * 1009 + rnd
            gen = ops_units(s, cfgs, p["random"], p.get("units", 16), p.get("per_type", 1), p.get("depth", 3), pairs,
                            core_fraction=p.get("core", 1.0))
            return [Binary("main", COMMON + ["src/ops.cpp", source, *extra_sources], gen,
                           ["-O1", f"-DOPS_MASK={mask}", *LIBCXX, *flags], cases=p["cases"])]
        return Plan(rule, binaries, p.get("rounds", 1), p.get("budget", 600), DOMAIN + list(assumptions))
    return make


PLANS = {}
TECHNIQUE = {}
NOTE = {}
PLANS["C01"] = ops_plan("C01", "props/c01.cpp", 5,
    "a case picks a generated type and archive configuration, 1..4 values and a start position, writes them into a partly filled buffer and reads them back; non-trivial: at least 2 bytes written",
    dict(random=40, per_type=2, units=24, cases=160000), dict(random=70, per_type=3, units=32, depth=4, rounds=8, cases=1500000, budget=600))
PLANS["C02"] = ops_plan("C02", "props/c02.cpp", 3,
    "a case picks a type, configuration and value, writes it over stale bytes and compares with the reference encoder; non-trivial: at least 2 bytes written into a non-empty buffer",
    dict(random=40, per_type=2, units=24, cases=240000), dict(random=70, per_type=3, units=32, depth=4, rounds=8, cases=2000000))
PLANS["C03"] = ops_plan("C03", "props/c03.cpp", 5,
    "a case writes one value with two configurations and compares byte by byte through the scalar map of the reference encoder; non-trivial: opposite byte orders and at least one multi-byte scalar",
    dict(random=30, per_type=2, units=24, cases=200000), dict(random=50, per_type=4, units=32, depth=4, rounds=8, cases=1500000), pairs=SWAP_PAIRS)
PLANS["C04"] = ops_plan("C04", "props/c04.cpp", 5,
    "a case writes a value and reads all (or 24 sampled, beyond 40 bytes) strict prefixes of it from exact-size memory; non-trivial: at least 2 bytes",
    dict(random=40, per_type=2, units=24, cases=60000), dict(random=70, per_type=3, units=32, depth=4, rounds=8, cases=600000))
PLANS["C05"] = ops_plan("C05", "props/c05.cpp", 9,
    "a case decodes random or mutated bytes with an allocation limit; accepted values are re-encoded and decoded again; non-trivial: at least 2 bytes",
    dict(random=30, per_type=2, units=24, cases=400000), dict(random=60, per_type=3, units=32, depth=4, rounds=8, cases=3000000), flags=UBSAN,
    assumptions=["bytes other than 0 and 1 for bool members are outside the domain", "recursive types: depth bounded by the generator (see C27)"])
PLANS["C06"] = ops_plan("C06", "props/c06.cpp", 2,
    "a case writes a value into exact-size memory of a capacity around the encoding's size; non-trivial: at least 2 bytes of encoding",
    dict(random=40, per_type=2, units=24, cases=300000), dict(random=70, per_type=3, units=32, depth=4, rounds=8, cases=2500000))
PLANS["C11"] = ops_plan("C11", "props/c11.cpp", 5,
    "a case decodes one value into a fresh target and into targets holding other values; non-trivial: the previous value differs",
    dict(random=40, per_type=2, units=24, cases=160000), dict(random=70, per_type=3, units=32, depth=4, rounds=8, cases=1500000))


C07_CONFIGS = [  # name, container, policy, mul, div, swap, size, options
    ("def_byte", "vb", "FIT", 3, 2, "false", "model::SP_4", ""),
    ("def_char", "vc", "FIT", 3, 2, "false", "model::SP_4", ""),
    ("def_string", "st", "FIT", 3, 2, "false", "model::SP_4", ""),
    ("big_uchar", "vu", "FIT", 3, 2, "true", "model::SP_4", "e::big{}"),
    ("nofit", "vb", "NO_FIT", 3, 2, "false", "model::SP_4", "no_fit_size{}"),
    ("nofit2", "vu", "NO_FIT", 2, 1, "false", "model::SP_2", "no_fit_size{}, enlarger<2>{}, size2b{}"),
    ("nofit54", "st", "NO_FIT", 5, 4, "true", "model::SP_8", "enlarger<5, 4>{}, size8b{}, no_fit_size{}, e::network{}"),
    ("nofit_unchecked", "vb", "NO_FIT", 3, 2, "false", "model::SP_4", "no_fit_size{}, no_enlarge_overflow{}"),
    ("exact", "vb", "EXACT", 1, 1, "false", "model::SP_4", "exact_enlarger{}"),
    ("exact_nofit", "vu", "EXACT", 1, 1, "false", "model::SP_1", "exact_enlarger{}, no_fit_size{}, size1b{}"),
    ("enlarger2", "vb", "FIT", 2, 1, "false", "model::SP_VARINT", "enlarger<2>{}, size_varint{}"),
    ("enlarger43", "vc", "FIT", 4, 3, "true", "model::SP_2", "enlarger<4, 3>{}, e::swapped{}, size2b{}, no_enlarge_overflow{}"),
    ("limited", "vb", "FIT", 3, 2, "false", "model::SP_4", "alloc_limit<1000000>{}"),
    ("nofit_exact_eq", "vb", "EXACT", 1, 1, "false", "model::SP_4", "enlarger<1, 1>{}, no_fit_size{}"),
]


def simple_plan(rule, sources, quick, thorough, flags=ASAN, generated=None, name="main", libs=(), assumptions=(), opt="-O1", stdlib=LIBCXX):
    """generated: f(tier, seed, round) -> [(file, text)]"""
    def make(tier, seed):
        p = quick if tier == "quick" else thorough

        def binaries(rnd):
            g = generated(tier, seed, rnd) if generated else []
            return [Binary(name, COMMON + list(sources), g, [opt, *stdlib, *flags], libs=libs, cases=p["cases"])]
        return Plan(rule, binaries, p.get("rounds", 1), p.get("budget", 600), DOMAIN + list(assumptions))
    return make


def deal(lines, n, head):
    """Spread declarations over n files."""
    return [(f"part{i}.cpp", head + "\n".join(lines[i::n]) + "\n") for i in range(n)]


PLANS["C07"] = simple_plan(
    "a case is a history: 1..3 archives (plain, append, reserve, resize) opened on one buffer, each with 1..11 writes, resets, position changes and external resizes, compared with a byte log model after every step; non-trivial: at least 2 writes and a growth",
    [], dict(cases=120000), dict(cases=3000000), assumptions=["positions are set within the buffer only"],
    generated=lambda t, s, r: deal(["C07_CONFIG(%s)" % ", ".join(str(x) for x in c if x != "") for c in C07_CONFIGS], 14, '#include "c07.hpp"\n'))

C08_CONFIGS = [  # name, limit, container, mul, div, swap, size, options
    ("l0", 0, "vb", 3, 2, "false", "model::SP_4", ""),
    ("l1", 1, "vb", 1, 1, "false", "model::SP_4", "exact_enlarger{}"),
    ("l7", 7, "vc", 3, 2, "false", "model::SP_2", "size2b{}"),
    ("l16", 16, "vu", 1, 1, "true", "model::SP_4", "e::big{}, exact_enlarger{}"),
    ("l64", 64, "vb", 2, 1, "false", "model::SP_4", "enlarger<2>{}"),
    ("l100", 100, "st", 3, 2, "false", "model::SP_VARINT", "size_varint{}, no_fit_size{}"),
    ("l255", 255, "vb", 1, 1, "false", "model::SP_8", "size8b{}, exact_enlarger{}, no_fit_size{}"),
    ("l1000", 1000, "vb", 3, 2, "true", "model::SP_8", "e::swapped{}, size8b{}"),
    ("l4096", 4096, "vu", 5, 4, "false", "model::SP_4", "enlarger<5, 4>{}, no_enlarge_overflow{}"),
    ("l65536", 65536, "vb", 3, 2, "false", "model::SP_4", ""),
]
PLANS["C08"] = simple_plan(
    "output cases write items into a buffer with an allocation limit around the needed size; input cases decode values whose containers respect, meet or exceed the limit, or corrupted encodings of them; non-trivial: growth needed / a container present",
    [], dict(cases=150000), dict(cases=3000000),
    assumptions=["with a growth factor, data between limit*divisor/multiplier and limit may be accepted or refused", "associative containers are bounded by the input itself"],
    generated=lambda t, s, r: deal(["C08_CONFIG(%s)" % ", ".join(str(x) for x in c if x != "") for c in C08_CONFIGS], 10, '#include "c08.hpp"\n'))

def c09_plan(tier, seed):
    ints = ["std::uint8_t", "std::int8_t", "std::uint16_t", "std::int16_t", "std::uint32_t", "std::int32_t", "std::uint64_t", "std::int64_t",
            "char", "unsigned long long", "c09::e8", "c09::s8", "c09::e16", "c09::s16", "c09::e32", "c09::s32", "c09::e64", "c09::s64", "c09::plain32"]
    unsigned = {"std::uint8_t", "std::uint16_t", "std::uint32_t", "std::uint64_t", "unsigned long long", "c09::e8", "c09::e16", "c09::e32", "c09::e64"}
    bytes_ = ["std::byte", "char", "unsigned char"]
    lines = []
    for i, t in enumerate(ints):
        for e in "NZ":
            if e == "Z" and t in unsigned:
                continue  # zig-zag is for signed values
            for b in (bytes_ if tier == "thorough" else [bytes_[(i + seed) % 3], "char"]):
                line = f'C09("{t}.{e}.{b}", {t}, {e}, {b})'
                if line not in lines:
                    lines.append(line)
    cases = 40000 if tier == "quick" else 1500000
    bins = [Binary(f"inline{m}", COMMON, deal(lines, 8, '#include "c09.hpp"\n'), ["-O1", *LIBCXX, *UBSAN, f"-DZPP_BITS_INLINE_DECODE_VARINT={m}"], cases=cases)
            for m in (0, 1)]
    return Plan("a case picks an integer or enum type, an encoding and a byte type, one value (or 256 consecutive ones, or a stream of up to 30), the bytes around it and the room left; "
                "non-trivial: an encoding of at least 2 bytes or fewer than 10 bytes behind it", lambda rnd: bins, budget_s=600,
                assumptions=DOMAIN[1:] + ["zig-zag varints of unsigned types are outside the domain", "overlong encodings other than unterminated ones are not specified"])


PLANS["C09"] = c09_plan

PLANS["C10"] = simple_plan(
    "a case picks a generated variant type (ids by index, integers, enums, literals, hashes, structs, or mixed; some alternatives not default constructible) and a configuration, then writes and reads it "
    "over any previous state, flips id bits, truncates, makes it valueless or uses known ids; non-trivial: the alternative changes, the id is unknown, or no id is on the wire",
    [], dict(cases=120000), dict(cases=1500000, rounds=6),
    generated=lambda t, s, r: vargen.units(s * 1009 + r, 34 if t == "quick" else 51, 16, [40, 66] if t == "quick" else [64, 96]), flags=[*ASAN, "-fconstexpr-steps=100000000"])

PLANS["C12"] = simple_plan(
    "a case is one call with 2..6 items in which a user function fails at a chosen point with a chosen code, a pointer is null, a variant valueless, a buffer too short, a limit exceeded, or input is truncated or malformed at a "
    "chosen leaf; non-trivial: something fails",
    [], dict(cases=150000), dict(cases=3000000),
    assumptions=["the failing item itself may be partly processed"],
    generated=lambda t, s, r: deal([f"C12_CONFIG({n}, {g}, {c})" for g in range(4) for n, c in (
        ("plain", "true, false, model::SP_4"), ("big", "false, true, model::SP_2, e::big{}, size2b{}"),
        ("svarint", "true, false, model::SP_VARINT, size_varint{}"))], 12, '#include "c12.hpp"\n'))

PLANS["C13"] = simple_plan(
    "a case picks a generated list of 1..8 item types, values and a configuration, writes the items alone, together, one by one and as a tuple, then reads and rewrites them through up to 3 generated groupings "
    "(structs of every listing style, tuples, pairs, arrays, pointers, nested); non-trivial: at least 2 items and 2 bytes",
    [], dict(cases=80000), dict(cases=1000000, rounds=6),
    generated=lambda t, s, r: groupgen.units(s * 1009 + r, 36 if t == "quick" else 80, 16, 3 if t == "quick" else 4, 2))

C26_CONFIGS = [
    ("plain", "vector_holder", "false, model::SP_4"), ("big", "const_vector_holder", "true, model::SP_4, e::big{}"), ("s2", "string_holder", "false, model::SP_2, size2b{}"),
    ("svarint", "view_holder", "false, model::SP_VARINT, size_varint{}"), ("big_s8", "span_holder<const std::byte>", "true, model::SP_8, e::swapped{}, size8b{}"),
    ("little_char", "span_holder<const char>", "false, model::SP_4, e::little{}"), ("uchar_s1", "span_holder<unsigned char>", "false, model::SP_1, size1b{}"),
    ("net_var", "span_holder<std::byte>", "true, model::SP_VARINT, e::network{}, size_varint{}"),
]
PLANS["C26"] = simple_plan(
    "a case is a history of reads, resets, position changes and failing reads on one input archive over several items (each read compared with the known item or with a fresh archive over the rest), or of interleaved writes and reads "
    "on paired archives; non-trivial: several reads and a move, or reads between writes",
    [], dict(cases=80000), dict(cases=2500000),
    assumptions=["positions are set within the buffer only"],
    generated=lambda t, s, r: deal([f"C26_CONFIG({n}, {h}, {c})" for n, h, c in C26_CONFIGS], 8, '#include "c26.hpp"\n'))



def c14_units(tier, seed, rnd):
    r = random.Random(seed * 1009 + rnd)
    byte = {"plain": "b", "plain_char": "c", "plain_uchar": "u", "plain_string": "c", "little": "b", "native": "u", "big": "b", "network": "c", "swapped": "u", "s1": "b",
            "s2": "c", "s4": "u", "s8": "b", "snative": "b", "svarint": "b", "big_s1": "c", "big_s2": "b", "big_s8": "u", "big_svarint": "b"}
    views = {"b": ["std::span<const std::byte>"], "c": ["std::string_view", "std::span<const char>"], "u": ["std::span<const unsigned char>"]}
    lines = []
    for c in ALL if tier == "thorough" else ["plain", "plain_char", "plain_uchar", "big_svarint", "big_s8"] + r.sample(ALL, 3):
        for v in views[byte[c]]:
            lines.append(f"C14_VIEWS(v{len(lines)}, {v}, {c})")
    for t in ["std::uint8_t", "std::byte", "char", "std::uint16_t", "std::uint32_t", "double", "c14::pod", "c14::padded", "c14::text", "std::string", "c14::color",
              "zpp::bits::vint32_t", "std::vector<std::uint16_t>"]:
        little, big = [c for c in ALL if "big" not in c and c not in ("network", "swapped")], [c for c in ALL if "big" in c or c in ("network", "swapped")]
        n = 1 if tier == "quick" else 4
        for c in r.sample(little, n) + r.sample(big, n):
            lines.append(f"C14_SPANS(s{len(lines)}, {t}, {c})")
    lines = list(dict.fromkeys(lines))
    return deal(lines, 24, '#include "c14.hpp"\n')


PLANS["C14"] = simple_plan(
    "a case reads const byte views (alone, in structs, tuples, optionals, variants, vectors, arrays, by sized() and unsized()) or claims a size around what is left, or fills a span over guarded storage around the needed size "
    "from a complete or cut encoding; non-trivial: at least 2 bytes viewed or one item in the span",
    [], dict(cases=150000), dict(cases=2500000, rounds=3), flags=UBSAN,
    assumptions=["const byte views read from an archive whose byte type is the view's", "spans of a fixed extent are mutable ones"],
    generated=c14_units)


def c15_plan(tier, seed):
    q = tier == "quick"

    def binaries(rnd):
        s = seed * 1009 + rnd
        return [Binary("clang", COMMON, cegen.units(s, 5 if q else 8, 2, 4, 15 if q else 24, False, 4), ["-O1", "-fconstexpr-steps=2000000000", *LIBCXX, *ASAN], shards=1, cases=6000 if q else 10000),
                Binary("gcc", COMMON, cegen.units(s + 500, 3, 2, 4, 7 if q else 16, True, 0), ["-O1", "-fconstexpr-ops-limit=2000000000"], shards=1, cases=1500 if q else 3000, cxx="g++")]
    return Plan("a case takes one generated type, configuration and seed: at compile time and at run time the seeded value is written into a fixed and a growing buffer, read back, written into and read from 8 shorter buffers, and read from 8 "
                "corrupted encodings; all codes, positions, bytes and values are compared, and to_bytes/from_bytes of constant objects likewise; non-trivial: at least 2 bytes",
                binaries, 1 if q else 6, 600, ["types that the compiler's standard library allows in constant evaluation", "variants with g++ 13 and libstdc++, all others with clang 18 and libc++"])


PLANS["C15"] = c15_plan

PLANS["C16"] = simple_plan(
    "a case picks one generated struct (every count 0..50, all listing styles and the protocol), a value and a configuration: the count, the visited addresses and types, and the bytes of the whole and of its members are compared "
    "with the declaration; non-trivial: at least 2 members",
    [], dict(cases=60000), dict(cases=300000, rounds=8),
    generated=lambda t, s, r: membergen.units(s * 1009 + r, 2 if t == "quick" else 3, 24))


PLANS["C17"] = simple_plan(
    "a case picks one generated callable (free, pointer, noexcept, lambda, functor, std::function, static and member functions; 0..6 parameters by value, reference or rvalue reference; results of every category), writes its "
    "arguments, then cuts or corrupts the bytes and compares the call with reading the arguments one by one; non-trivial: at least one argument and 2 bytes",
    [], dict(cases=120000), dict(cases=800000, rounds=8),
    assumptions=["parameters are not non-const lvalue references", "callables are not overloaded or generic"],
    generated=lambda t, s, r: applygen.units(s * 1009 + r, 102 if t == "quick" else 204, 24))


PLANS["C18"] = simple_plan(
    "a case is a history of requests (with id or body only; lvalue, const, rvalue and converted arguments), serves, responses, unknown ids, damaged copies and short outputs over a generated set of 1..8 bindings "
    "(free, member, opaque of every signature; ids of every width), on shared or separate archives with pipelining, against a call log model; non-trivial: at least two served or refused calls",
    [], dict(cases=100000), dict(cases=800000, rounds=8),
    assumptions=["the ids of one set have the same width", "bound functions do not return zpp::bits::errc (opaque ones may)"],
    generated=lambda t, s, r: rpcgen.units(s * 1009 + r, 32 if t == "quick" else 64, 32, 8))


PB = dict(stdlib=["-stdlib=libstdc++"], libs=["-lprotobuf"])
PLANS["C19"] = simple_plan(
    "a case picks a generated message type (0..30 fields of every kind, every numbering and definition style), a value, an archive configuration and a growth, limit or fixed-buffer variant, and hands the body to libprotobuf; "
    "non-trivial: a body of at least 2 bytes, or one too long for its prefix",
    ["src/pb_oracle.cpp"], dict(cases=100000), dict(cases=800000, rounds=8), **PB,
    assumptions=["libprotobuf 3.21.12 is the other implementation", "plain enumerations hold their enumerators' range"],
    generated=lambda t, s, r: pbgen.units("c19", s * 1009 + r, 24 if t == "quick" else 40, 4, 2))

PLANS["C20"] = simple_plan(
    "a case picks a generated message type and value, and encodes it as some conforming encoder might (fields shuffled, repeated fields packed, unpacked or split, earlier overridden values, unknown fields of every wire type at every depth, "
    "defaults left out) or with libprotobuf, and compares what zpp_bits decodes with what libprotobuf sees; non-trivial: a body of at least 2 bytes",
    ["src/pb_oracle.cpp"], dict(cases=100000), dict(cases=1000000, rounds=8), **PB,
    assumptions=["libprotobuf 3.21.12 is the other implementation", "embedded messages occur once", "fields have the wire type of the schema"],
    generated=lambda t, s, r: pbgen.units("c20", s * 1009 + r, 24 if t == "quick" else 48, 5, 2))

PLANS["C21"] = simple_plan(
    "a case encodes a generated message in a random conforming way and cuts it (acceptance and values must agree with libprotobuf), cuts it behind its size prefix, makes one length exceed the enclosing message, decodes it under an allocation limit, "
    "or damages bytes at random; allocations are bounded by the input size; non-trivial: a body of at least 2 bytes",
    ["src/pb_oracle.cpp"], dict(cases=120000), dict(cases=1200000, rounds=8), flags=UBSAN, **PB,
    assumptions=["random damage only in messages without bool members and enumerations of a limited range", "libprotobuf 3.21.12 is the other implementation"],
    generated=lambda t, s, r: pbgen.units("c21", s * 1009 + r, 16 if t == "quick" else 40, 5, 1))


def c22_plan(tier, seed):
    q = tier == "quick"

    def binaries(rnd):
        r = random.Random(seed * 1009 + rnd)
        # clang: all lengths around the block borders; g++: every length up to a few blocks, long ones
        edges = [0, 1, 54, 55, 56, 57, 63, 64, 65, 118, 119, 120, 127, 128, 129, 183, 184, 191, 192]
        clang = [n for n in edges for _ in range(6)] + [r.randrange(260) for _ in range(120 if q else 300)] + [r.choice([511, 512, 513, 1000, 2047])]
        gcc = list(range(0, 330)) * (1 if q else 2) + [r.randrange(200, 1024) for _ in range(20)] + [255, 256, 503, 504, 511, 512, 1015, 1016, 2048, 4087, 4095, 4096]
        r.shuffle(clang), r.shuffle(gcc)
        return [Binary("clang", COMMON + ["props/c22.cpp"], hashgen.units("k", r.getrandbits(32), 16, clang, 0.2, 600, 120), ["-O1", "-fconstexpr-steps=2000000000", *LIBCXX, *ASAN], cases=10000 if q else 100000),
                Binary("gcc", COMMON + ["props/c22.cpp"], hashgen.units("g", r.getrandbits(32), 16, gcc, 0.5, 600, 120), ["-O1", "-fconstexpr-ops-limit=2000000000"], cases=10000 if q else 100000, cxx="g++")]
    return Plan("a case evaluates 1..4 generated expressions (sha1 and sha256 of literals, byte arrays and objects of every length, nested digests, hex, byte and string literals, to_bytes, join, slice, from_bytes, id_v) at run time and at "
                "compile time and compares values and types with what hashlib computes, or checks every shift, sum and bit operation of two big-endian numbers, or every slice of an array; non-trivial: a non-empty result",
                binaries, 1 if q else 6, 600, ["messages of at most 4096 bytes (the limit of to_bytes)", "joins of byte sequences", "big-endian numbers of 32 and 64 bits"])


PLANS["C22"] = c22_plan


C25_TYPES = ["std::vector<std::uint8_t>", "std::vector<std::byte>", "std::vector<std::uint16_t>", "std::vector<std::uint32_t>", "std::vector<double>", "std::vector<c25::pod>", "std::vector<c25::mixed>",
             "std::vector<std::string>", "std::vector<std::vector<std::uint16_t>>", "std::vector<zpp::bits::vuint32_t>", "std::vector<c25::shade>", "std::string", "std::wstring", "std::u8string", "std::u16string",
             "std::u32string", "std::list<std::uint16_t>", "std::deque<std::uint8_t>", "std::deque<std::string>", "std::set<std::uint32_t>", "std::set<std::string>", "std::map<std::uint32_t, std::uint16_t>",
             "std::map<std::string, std::vector<std::uint8_t>>", "std::multimap<std::uint32_t, std::string>", "std::multiset<std::uint16_t>", "std::unordered_set<std::uint32_t>", "std::unordered_map<std::uint32_t, std::string>",
             "std::unordered_multimap<std::uint64_t, std::uint8_t>", "std::vector<std::set<std::uint16_t>>"]


def c25_units(tier, seed, rnd):
    r = random.Random(seed * 1009 + rnd)
    sizes = ["unsigned char", "std::uint16_t", "std::uint32_t", "std::uint64_t", "zpp::bits::vsize_t", "void", "zpp::bits::vuint32_t"]
    small = ["s1", "s2", "big_s1", "big_s2"]
    cfg = ALL + ["nosize", "big_nosize", "s4_varint"]
    lines = []
    for t in C25_TYPES:
        picks = [(r.choice(small), r.choice(sizes[2:5])), (r.choice(cfg), r.choice(sizes[:2])), (r.choice(cfg), "void" if r.random() < .5 else r.choice(sizes))]
        if tier == "thorough":
            picks += [(r.choice(cfg), r.choice(sizes)) for _ in range(2)]
        for c, s in picks:
            lines.append(f"C25(t{len(lines)}, {c}, {s}, {t})")
    for t in ["std::uint8_t", "std::uint32_t", "c25::pod", "std::string", "c25::shade", "zpp::bits::vuint32_t", "std::byte", "double"]:
        lines.append(f"C25_FIXED(t{len(lines)}, {r.choice(ALL if t == 'std::string' else cfg[:-3])}, {r.choice(sizes)}, {t})")
    aliases = []
    native = "std::size_t"
    for kind, tag in ("vector", "std::vector"), ("span", "std::span"):
        for suffix, s in ("1b", "unsigned char"), ("2b", "std::uint16_t"), ("4b", "std::uint32_t"), ("8b", "std::uint64_t"):
            aliases.append((f"zpp::bits::{kind}{suffix}", s, tag))
        aliases.append((f"zpp::bits::static_{kind}", "void", tag))
        aliases.append((f"zpp::bits::native_{kind}", native, tag))
    out = []
    for a, s, tag in aliases:
        e = r.choice(["std::uint8_t", "std::uint16_t", "std::string", "int", "double"])
        out.append(f"C25_ALIAS({a[11:]}, {a}<{e}>, {s}, {tag}<{e}>)")
    for c in ["", "w", "u8", "u16", "u32"]:
        for v in "string", "string_view":
            for suffix, s in ("1b", "unsigned char"), ("2b", "std::uint16_t"), ("4b", "std::uint32_t"), ("8b", "std::uint64_t"):
                out.append(f"C25_ALIAS({c}{v}{suffix}, zpp::bits::{c}{v}{suffix}, {s}, std::{c}{v})")
            out.append(f"C25_ALIAS(static_{c}{v}, zpp::bits::static_{c}{v}, void, std::{c}{v})")
            out.append(f"C25_ALIAS(native_{c}{v}, zpp::bits::native_{c}{v}, {native}, std::{c}{v})")
    lines += out
    r.shuffle(lines)
    return deal(lines, 32, '#include "c25.hpp"\n')


PLANS["C25"] = simple_plan(
    "a case picks a container type, archive option and size type, a way to ask for it (the option, sized(), unsized(), sized_t, members, tuples, optionals, arrays, every alias) and a length around the size type's limits (also beyond it), "
    "and compares the bytes with the documented layout and what is read back with the announced elements; non-trivial: a non-empty container",
    [], dict(cases=120000), dict(cases=600000, rounds=8),
    assumptions=["sets and maps are not read without a size", "vectors of bool are not supported"],
    generated=c25_units)


PLANS["C27"] = simple_plan(
    "a case picks a generated family of self- or mutually referencing types and a graph of it (small, wide or deep), and reads it into a fresh or used target, over objects with other owners, from cut or damaged bytes, or with memory "
    "running out at a chosen allocation; or writes it with one null owner; non-trivial: at least 3 pointees",
    [], dict(cases=80000), dict(cases=600000, rounds=8),
    assumptions=["chains of at most 300 nodes (the recursion of the archive is bounded by the stack only)", "unique_ptr with the default deleter"],
    generated=lambda t, s, r: graphgen.units(s * 1009 + r, 48, 24, ALL))


def c24_plan(tier, seed):
    q = tier == "quick"

    def binaries(rnd):
        s = seed * 1009 + rnd
        n = (24, 16) if q else (40, 24)
        return [Binary("clang", COMMON, podgen.units("k", s * 2, n[0], 9), ["-O1", *LIBCXX, *ASAN], cases=80000 if q else 400000),
                Binary("gcc", COMMON, podgen.units("g", s * 2 + 1, n[1], 9), ["-O1"], cases=60000 if q else 300000, cxx="g++")]
    return Plan("a case picks a generated trivially copyable type (plain, padded, over-aligned, with empty, array, nested or custom serialized members, all ways to declare the members) in a generated carrier, or bytes() and as_bytes() of it, "
                "under little and big endian archives, and compares with the members written one by one (the object bytes for the explicit views), reads them back over other values, from cut input, into short buffers; non-trivial: over 3 bytes, or at least one item",
                binaries, 1 if q else 8, 600, ["no multidimensional C arrays (reading them does not compile)", "bytes() of multi-byte items only under native byte order (by design)"])


PLANS["C24"] = c24_plan


NATIVE = ["-march=native"]
BUILDS = {  # compiler, flags
    "clang18-libcxx-O0": ("clang++-18", ["-O0", *LIBCXX]),
    "clang18-libcxx-O3-native-c++23": ("clang++-18", ["-O3", "-std=c++23", *NATIVE, *LIBCXX]),
    "clang18-libstdcxx-O2-outline": ("clang++-18", ["-O2", "-DZPP_BITS_INLINE_MODE=0"]),
    "clang18-libcxx-O1-varint-inline": ("clang++-18", ["-O1", "-DZPP_BITS_INLINE_DECODE_VARINT=1", *LIBCXX]),
    "gcc13-O0": ("g++", ["-O0"]),
    "gcc13-O3-varint-inline": ("g++", ["-O3", "-DZPP_BITS_INLINE_DECODE_VARINT=1"]),
    "gcc13-O2-outline-noexcept": ("g++", ["-O2", "-DZPP_BITS_INLINE_MODE=0", "-fno-exceptions", "-fasynchronous-unwind-tables"]),
    # thorough only
    "clang18-libcxx-Os-outline-varint": ("clang++-18", ["-Os", "-DZPP_BITS_INLINE_MODE=0", "-DZPP_BITS_INLINE_DECODE_VARINT=1", *LIBCXX]),
    "clang18-libstdcxx-O3-noexcept": ("clang++-18", ["-O3", "-fno-exceptions", "-fasynchronous-unwind-tables"]),
    "gcc13-O3-native-c++23-outline": ("g++", ["-O3", "-std=c++23", *NATIVE, "-DZPP_BITS_INLINE_MODE=0"]),
    "gcc13-Os": ("g++", ["-Os"]),
    "gcc13-O1-ubsan": ("g++", ["-O1", "-fsanitize=undefined", "-fno-sanitize-recover=all"]),
}


C29_TYPES = [
    "P<u8, bomb, string>", "outer", "vector<outer>", "P<listed, bomb>", "vector<listed>", "custom", "P<string, custom, custom>", "node", "vector<node>", "std::list<outer>",
    "optional<no_default>", "variant<no_default, bomb2>", "unique_ptr<no_default>", "map<bomb, string>", "map<string, bomb2>", "std::set<bomb>", "std::multimap<u8, bomb2>",
    "optional<bomb2>", "vector<optional<unique_ptr<outer>>>", "shared_ptr<outer>", "vector<shared_ptr<bomb2>>", "optional_ptr<listed>", "variant<u8, bomb, outer>", "vector<variant<string, bomb2, node>>",
    "std::array<outer, 3>", "std::list<bomb2>", "std::deque<outer>", "pair<bomb, outer>", "P<vector<string>, vector<vector<bomb>>, string>", "map<string, vector<pair<string, bomb>>>",
    "unique_ptr<variant<bomb, unique_ptr<bomb2>>>", "zpp::bits::vector1b<custom>", "optional<vector<unique_ptr<node>>>", "vector<map<u8, unique_ptr<bomb>>>", "optional_ptr<optional_ptr<bomb2>>"]


def c29_plan(tier, seed):
    q = tier == "quick"

    def binaries(rnd):
        s = seed * 1009 + rnd
        gen = ops_units(s, ALL, 30 if q else 60, 20 if q else 32, 2 if q else 3, 3)
        r = random.Random(s)
        lines = [f"C29(t{i}, {c}, {t})" for i, t in enumerate(C29_TYPES) for c in r.sample(ALL, 2 if q else 5)]
        return [Binary("memory", COMMON + ["src/ops.cpp", "props/c29.cpp"], gen, ["-O1", "-DOPS_MASK=16", *LIBCXX, *ASAN], cases=120000 if q else 1200000),
                Binary("user", COMMON + ["props/c29f.cpp"], deal(lines, 10, '#include "c29.hpp"\n'), ["-O1", *LIBCXX, *ASAN], cases=60000 if q else 800000)]
    return Plan("a case writes or reads one value of a generated type while one memory request throws std::bad_alloc (each in turn), or while one of the user's serialize functions throws before or after its own item, and then "
                "repeats the call on the same archive and object; non-trivial: an exception came out", binaries, 1 if q else 4, 600,
                DOMAIN + ["the position after an exception is only required to lie between the call's start and the end of the buffer"])


PLANS["C29"] = c29_plan

def c30_plan(tier, seed):
    q = tier == "quick"

    def binaries(rnd):
        s = seed * 1009 + rnd
        return [Binary("threads", COMMON + ["src/ops.cpp", "props/c30.cpp"], ops_units(s, ALL, 24 if q else 60, 20 if q else 32, 1 if q else 3, 3),
                       ["-O1", "-DOPS_MASK=5", "-DENGINE_THREADS", *LIBCXX, "-fsanitize=thread"], libs=["-pthread"], shards=4, cases=16000 if q else 200000),
                Binary("nested", COMMON + ["src/ops.cpp", "props/c30.cpp"], ops_units(s + 500, ALL, 12 if q else 40, 12 if q else 24, 1, 3),
                       ["-O1", "-DOPS_MASK=5", *LIBCXX, *ASAN], cases=40000 if q else 500000)]
    return Plan("a case serializes the same objects and reads the same bytes in 2 or 3 threads at once under the thread sanitizer, or makes complete calls on other archives inside of the serialize functions of an outer "
                "value; non-trivial: at least 2 bytes, or nested calls were made", binaries, 1 if q else 4, 600,
                DOMAIN + ["one archive is used by one thread at a time", "races are seen where the two accesses are unordered in the run, whatever their timing"])


PLANS["C30"] = c30_plan

PLANS["C28"] = simple_plan(
    "a case writes and reads items, applies functions or carries out a history of RPC requests in coroutines, over whole, cut and damaged data, and compares codes, calls, values and bytes with the same "
    "operations checked by code or with a model; non-trivial: more than one request, or several bytes",
    ["props/c28.cpp"], dict(cases=150000), dict(cases=4000000), flags=UBSAN + ["-I" + HERE + "/stubs"],
    assumptions=["zpp::throwing itself is a stand-in (stubs/zpp_throwing.h): a coroutine runs when called and ends at the first error"])


def c23_plan(tier, seed):
    q = tier == "quick"
    names = list(BUILDS)[:7 if q else 99]

    def binaries(rnd):
        s = seed * 1009 + rnd
        gen = ops_units(s, ALL, 24 if q else 60, 8 if q else 24, 1, 2 if q else 3, None, core_fraction=0.5 if q else 1.0)
        flags = ["-w", "-DOPS_MASK=15"]
        files = COMMON + ["src/ops.cpp", "props/c23.cpp"]
        out = [Binary("main", files, gen, ["-O1", "-DENGINE_PEERS", *flags, *LIBCXX, *ASAN], cases=40000 if q else 300000)]
        for n in names:
            cxx, f = BUILDS[n]
            out.append(Binary("peer-" + n, files, gen, [*f, *flags], cases=0, cxx=cxx))
        return out
    return Plan("a case is run by one build and repeated, choice by choice, by " + str(len(names)) + " other builds of the same generated program; everything observed (bytes, positions, error codes, values read from intact, cut and damaged "
                "messages; archives of generated types, varints, protocol messages, RPC, compile-time constants) is compared byte by byte; non-trivial: a message of more than 3 bytes",
                binaries, 1 if q else 4, 600, ["types whose encoding order is defined (no unordered containers)", "x86-64; the builds are " + ", ".join(names)])


PLANS["C23"] = c23_plan


def plan(prop, tier, seed):
    return PLANS[prop](tier, seed)
