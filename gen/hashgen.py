"""Literals, objects and expressions with the digests, bytes and ids python computes for them, for C22."""
import hashlib
import random
import struct


def octal(b, kind=""):
    if kind in ("", "u8"):
        # printable characters as they are (never a trigraph or an escape), the rest as octal escapes of three digits
        return kind + '"' + "".join(chr(c) if c < 128 and chr(c).isalnum() or c < 128 and chr(c) in " -_.,;:!+" else "\\%03o" % c for c in b) + '"'
    return kind + '"' + "".join("\\x%x\" %s\"" % (c, kind) for c in b) + '"'


class H:
    def __init__(self, r, prefix, head):
        self.r, self.prefix, self.n, self.defs, self.lines = r, prefix, 0, [], [head]

    def literal(self, n):
        """(C++ literal, its bytes) of n characters."""
        r = self.r
        k = r.choice(["any", "any", "text", "zeros", "ones", "ascii"])
        b = {"any": lambda: bytes(r.randrange(256) for _ in range(n)), "text": lambda: bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz 0123456789") for _ in range(n)),
             "zeros": lambda: bytes(n), "ones": lambda: b"\xff" * n, "ascii": lambda: bytes(r.randrange(1, 128) for _ in range(n))}[k]()
        return octal(b), b

    def wide(self, n):
        """A literal of another character type of n characters."""
        r = self.r
        k = r.choice(["u", "U", "u8"])
        if k == "u8":
            b = bytes(r.randrange(1, 128) for _ in range(n))
            return octal(b, "u8"), b
        w = {"u": 2, "U": 4}[k]
        v = [r.randrange(1, 0x10000 if w == 2 and r.random() < .5 else 0x80) for _ in range(n)]
        v = [x if not 0xd800 <= x < 0xe000 else 0x41 for x in v]
        return k + '"' + "".join("\\u%04x" % x if x >= 0xa0 else ("\\x%02x\" %s\"" % (x, k)) for x in v) + '"', b"".join(x.to_bytes(w, "little") for x in v)

    def object(self):
        """A constant object of a structural type and its serialization."""
        r = self.r
        k = r.choice(["int", "int", "byte", "enum", "array", "array2", "struct", "struct", "big", "bool", "lit", "bytes", "char"])
        if k == "int":
            w, s = r.choice([1, 2, 4, 8]), r.random() < .4
            v = r.choice([0, 1, r.getrandbits(8 * w), (1 << (8 * w)) - 1, 1 << (8 * w - 1)])
            b = v.to_bytes(w, "little")
            return f"static_cast<std::{'' if s else 'u'}int{8 * w}_t>(0x{v:x}ull)", b
        if k == "byte":
            v = r.randrange(256)
            return f"std::byte{{{v}}}", bytes([v])
        if k == "char":
            return (c := r.choice("azAZ09 _"), f"'{c}'", c.encode())[1:]
        if k == "bool":
            v = r.randrange(2)
            return ["false", "true"][v], bytes([v])
        if k == "enum":
            v = r.randrange(1 << 16)
            return f"c22::color{{{v}}}", v.to_bytes(2, "little")
        if k == "array":
            w, n = r.choice([1, 2, 4, 8]), r.randint(1, 20)
            v = [r.getrandbits(8 * w) for _ in range(n)]
            return f"std::array<std::uint{8 * w}_t, {n}>{{" + ", ".join(f"0x{x:x}u" if w < 8 else f"0x{x:x}ull" for x in v) + "}", b"".join(x.to_bytes(w, "little") for x in v)
        if k == "bytes":
            n = r.randint(1, 70)
            v = [r.randrange(256) for _ in range(n)]
            return f"std::array<std::byte, {n}>{{" + ", ".join(f"std::byte{{{x}}}" for x in v) + "}", bytes(v)
        if k == "array2":
            v = [[r.randrange(65536) for _ in range(3)] for _ in range(2)]
            return "std::array<std::array<std::uint16_t, 3>, 2>{{" + ", ".join("{" + ", ".join(map(str, x)) + "}" for x in v) + "}}", b"".join(y.to_bytes(2, "little") for x in v for y in x)
        if k == "big":
            w = r.choice([4, 8])
            v = r.getrandbits(8 * w)
            return f"zpp::bits::numbers::big_endian<std::uint{8 * w}_t>{{0x{v:x}ull}}".replace("ull}", "u}" if w == 4 else "ull}"), v.to_bytes(w, "big")
        if k == "lit":
            l, b = self.literal(r.randint(0, 40))
            return f"{l}_s", b
        nm, members, init, b = f"{self.prefix}s{len(self.defs)}", [], [], b""
        for i in range(r.randint(1, 5)):
            t, w = r.choice([("std::uint8_t", 1), ("std::uint16_t", 2), ("std::uint32_t", 4), ("std::uint64_t", 8), ("c22::color", 2), ("std::byte", 1)])
            v = r.getrandbits(8 * w)
            members.append(f"{t} m{i}{{}};")
            init.append(f"{t}{{0x{v:x}ull}}" if w < 8 else f"0x{v:x}ull")
            b += v.to_bytes(w, "little")
        style = r.choice(["", f" using serialize = zpp::bits::members<{len(members)}>;", f" constexpr static auto serialize(auto & ar, auto & self) {{ return ar({', '.join(f'self.m{i}' for i in range(len(members)))}); }}"])
        self.defs.append(f"struct {nm} {{ {' '.join(members)}{style} }};")
        return f"{nm}{{{', '.join(init)}}}", b

    def add(self, kind, expr, type_, expect, ct):
        self.n += 1
        what = f"{kind}{len(expect)}"
        self.lines.append(f'C22_{"BOTH" if ct else "RUN"}({kind}, {len(expect)}, ({type_}), "{expect.hex()}", {expr})')

    def digest(self, src, ct, which=None):
        r = self.r
        name, size = r.choice([("sha1", 20), ("sha256", 32)]) if which is None else [("sha1", 20), ("sha256", 32)][which]
        expr, b = src
        d = hashlib.new(name, b).digest()
        T = f"std::array<std::byte, {size}>"
        if expr.endswith('"') and r.random() < .5:
            k = r.choice(["op", "op", "op", "int"])
            if k == "op":
                return self.add(name, f"{expr}_{name}", T, d, ct)
            return self.add(name, f"{expr}_{name}_int", "std::uint32_t", d[:4], ct)
        if expr.endswith('"'):
            expr = r.choice([f"{expr}_s", f"{expr}_b"])
        k = r.choice(["plain", "plain", "id", "again"])
        if k == "id":
            w = r.choice([1, 2, 3, 4, 5, 8, 12, 16, size])
            return self.add(name + "_id", f"zpp::bits::id_v<zpp::bits::{name}<{expr}>(), {w}>", self.id_type(w), d[:w], ct)
        if k == "again":
            other = r.choice(["sha1", "sha256"])
            d = hashlib.new(other, d).digest()
            return self.add(other, f"zpp::bits::{other}<zpp::bits::{name}<{expr}>()>()", f"std::array<std::byte, {len(d)}>", d, ct)
        self.add(name, f"zpp::bits::{name}<{expr}>()", T, d, ct)

    @staticmethod
    def id_type(w):
        return {1: "std::byte", 2: "std::uint16_t", 4: "std::uint32_t", 8: "std::uint64_t"}.get(w, f"std::array<std::byte, {w}>")

    def cheap(self):
        r = self.r
        k = r.choice(["hex", "hex", "b", "s", "to_bytes", "to_bytes", "join", "slice", "id", "from_bytes", "wide"])
        if k == "hex":
            b = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 16, 20, 33])))
            h = "".join(r.choice([c, c.upper()]) for c in b.hex())
            return self.add("hex", f'"{h}"_decode_hex', f"std::array<std::byte, {len(b)}>", b, True)
        if k in "bs":
            l, b = self.literal(r.choice([0, 1, 2, 3, 7, 30, 100]))
            if k == "b":
                return self.add("b", f"{l}_b", f"std::array<std::byte, {len(b)}>" if b else "zpp::bits::string_literal<std::byte, 0>", b, True)
            return self.add("s", f"{l}_s", f"zpp::bits::string_literal<char, {len(b)}>", b, True)
        if k == "wide":
            l, b = self.wide(r.choice([0, 1, 2, 5, 20]))
            return self.add("b", f"{l}_b", f"std::array<std::byte, {len(b)}>" if b else "zpp::bits::string_literal<std::byte, 0>", b, True)
        if k == "to_bytes":
            os = [self.object() for _ in range(r.randint(1, 4))]
            b = b"".join(x[1] for x in os)
            return self.add("to_bytes", f"zpp::bits::to_bytes<{', '.join(x[0] for x in os)}>()", f"std::array<std::byte, {len(b)}>" if b else "zpp::bits::string_literal<std::byte, 0>", b, True)
        if k == "join":
            os = [self.literal(r.randint(0, 12)) for _ in range(r.randint(0, 4))]
            b = b"".join(x[1] for x in os)
            return self.add("join", f"zpp::bits::join<{', '.join(x[0] + r.choice(['_s', '_b']) for x in os)}>()", f"std::array<std::byte, {len(b)}>" if b else "zpp::bits::string_literal<std::byte, 0>", b, True)
        if k == "slice":
            l, b = self.literal(r.randint(1, 30))
            x = r.randrange(len(b) + 1)
            y = r.randint(x + 1, len(b)) if x < len(b) and r.random() < .8 else -1
            s = r.choice(["_s", "_b"])
            e = b[x:] if y == -1 else b[x:y]
            return self.add("slice", f"zpp::bits::slice<{x}{'' if y == -1 and r.random() < .5 else f', {y}'}>({l}{s})", f"std::array<{'char' if s == '_s' else 'std::byte'}, {len(e)}>", e, True)
        if k == "id":
            o, b = self.object()
            while not b:
                o, b = self.object()
            w = r.choice([-1] + [w for w in (1, 2, 3, 4, 5, 7, 8, 9, 16) if w <= len(b)])
            n = len(b) if w == -1 else w
            return self.add("id", f"zpp::bits::id_v<{o}{'' if w == -1 else f', {w}'}>", self.id_type(n), b[:n], True)
        w = r.choice([1, 2, 4, 8])
        n = r.choice([1, 1, 2, 3])
        b = bytes(r.randrange(256) for _ in range(n * w))
        t = f"std::uint{8 * w}_t"
        if n == 1:
            return self.add("from_bytes", f"zpp::bits::from_bytes<{octal(b)}_b, {t}>()", t, b, True)
        self.add("from_bytes", f"zpp::bits::from_bytes<{octal(b)}_b, {', '.join([t] * n)}>()", "std::tuple<" + ", ".join([t] * n) + ">", b, True)


def units(prefix, seed, count, lengths, ct_share, cheap, objects):
    """`count` units; every length of `lengths` is hashed once, in turn."""
    r = random.Random(seed)
    hs = [H(r, f"{prefix}{i}", f'#include "c22.hpp"\n') for i in range(count)]
    for i, n in enumerate(lengths):
        h = hs[i % count]
        if n > 1000:
            # the few long ones: both functions, in different units
            h.digest(h.literal(n), False, 0)
            hs[(i + 5) % count].digest(hs[(i + 5) % count].literal(n), False, 1)
            continue
        h.digest(h.wide(n // 4) if r.random() < .08 else h.literal(n), r.random() < ct_share * min(1, 128 / (n + 1)))
    for i in range(objects):
        h = hs[i % count]
        h.digest(h.object(), r.random() < ct_share)
    for i in range(cheap):
        hs[i % count].cheap()
    return [(f"{prefix}{i}.cpp", h.lines[0] + "\n".join(h.defs) + "\n" + f"C22_BEGIN({prefix}{i})\n" + "\n".join(h.lines[1:]) + "\nC22_END\n") for i, h in enumerate(hs)]
