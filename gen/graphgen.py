"""Families of self- and mutually referencing types, for C27."""
import random

LEAVES = ["std::uint8_t", "std::uint32_t", "std::uint64_t", "std::string", "std::vector<std::uint16_t>", "c27::counted", "c27::counted", "std::unique_ptr<std::uint32_t>", "std::unique_ptr<c27::counted>", "std::shared_ptr<std::string>",
          "std::shared_ptr<c27::counted>", "std::shared_ptr<c27::counted>", "zpp::bits::optional_ptr<c27::counted>", "zpp::bits::optional_ptr<std::string>", "std::optional<c27::counted>", "std::unique_ptr<std::unique_ptr<std::uint16_t>>",
          "std::shared_ptr<std::unique_ptr<std::string>>", "std::vector<std::unique_ptr<c27::counted>>", "std::array<std::unique_ptr<std::uint16_t>, 2>", "std::optional<std::shared_ptr<std::string>>",
          "std::variant<std::uint32_t, std::unique_ptr<c27::counted>, std::string>", "std::map<std::uint16_t, std::unique_ptr<std::string>>", "std::unique_ptr<c27::hidden>", "std::optional<c27::hidden>",
          "std::unique_ptr<c27::counted> @[2]", "std::tuple<std::uint8_t, std::shared_ptr<std::uint64_t>>", "std::unique_ptr<std::vector<std::shared_ptr<c27::counted>>>"]
# references to a type N that may be incomplete where they are declared
REFS = ["zpp::bits::optional_ptr<N>", "zpp::bits::optional_ptr<N>", "std::optional<std::unique_ptr<N>>", "std::optional<std::shared_ptr<N>>", "std::vector<std::unique_ptr<N>>", "std::vector<std::shared_ptr<N>>",
        "std::vector<zpp::bits::optional_ptr<N>>", "std::vector<N>", "std::list<N>", "std::list<std::unique_ptr<N>>", "std::map<std::uint16_t, std::unique_ptr<N>>", "std::map<std::string, std::shared_ptr<N>>",
        "std::unordered_map<std::uint32_t, std::unique_ptr<N>>", "std::variant<std::uint32_t, std::unique_ptr<N>>", "std::variant<std::monostate, std::shared_ptr<N>, std::vector<std::unique_ptr<N>>>",
        "std::variant<std::string, zpp::bits::optional_ptr<N>, std::vector<N>>", "std::array<zpp::bits::optional_ptr<N>, 2>", "std::tuple<std::uint8_t, zpp::bits::optional_ptr<N>>",
        "std::pair<zpp::bits::optional_ptr<N>, zpp::bits::optional_ptr<N>>", "zpp::bits::optional_ptr<std::vector<N>>", "std::unique_ptr<std::vector<N>>", "std::unique_ptr<zpp::bits::optional_ptr<N>>",
        "std::shared_ptr<std::optional<std::unique_ptr<N>>>", "std::deque<std::unique_ptr<N>>", "zpp::bits::vector1b<std::unique_ptr<N>>", "std::optional<std::vector<std::shared_ptr<N>>>", "zpp::bits::optional_ptr<N> @[2]"]


def declare(t, n):
    return t.replace("@", n) + ";" if "@" in t else f"{t} {n};"


def family(r, prefix, count):
    names = [f"{prefix}n{i}" for i in range(count)]
    full = [f"t::{n}" for n in names]
    out = "namespace t { " + " ".join(f"struct {n};" for n in names) + " }\n"
    out += "".join(f"template <> struct model::M<{f}>;\n" for f in full)
    out += "namespace t\n{\n"
    models = ""
    for i, n in enumerate(names):
        # the next type of the ring, so that all are reachable, and some others
        targets = [(i + 1) % count] + [r.randrange(count) for _ in range(r.choice([0, 0, 1, 1, 2]))]
        members = [r.choice(LEAVES) for _ in range(r.randint(0 if len(targets) > 1 else 1, 3))] + [r.choice(REFS).replace("N>", names[t] + ">") for t in targets]
        r.shuffle(members)
        ms = [f"m{k}" for k in range(len(members))]
        text = "\n".join("    " + declare(m, x) for m, x in zip(members, ms))
        style = r.choice(["agg", "agg", "members", "adl", "expl", "expl_errc", "hidden"])
        if "@" in "".join(members) and style == "agg":
            style = "members"  # counting the members of an aggregate does not work with arrays
        args = ", ".join("self." + x for x in ms)
        head, tail = "", ""
        if style == "members":
            head = f"    using serialize = zpp::bits::members<{len(ms)}>;\n"
        elif style == "adl":
            tail = f"auto serialize(const {n} &) -> zpp::bits::members<{len(ms)}>;\n"
        elif style in ("expl", "expl_errc"):
            head = f"    constexpr static {'auto' if style == 'expl' else 'zpp::bits::errc'} serialize(auto & archive, auto & self) {{ return archive({args}); }}\n"
        elif style == "hidden":
            head = f"    using serialize = zpp::bits::members<{len(ms)}>;\nprivate:\n    friend zpp::bits::access;\n    template <typename> friend struct model::M;\n    template <typename, typename> friend struct model::StructModel;\n"
        out += f"struct {n} // {style}\n{{\n{head}{text}\n}};\n{tail}"
        models += (f"template <> struct model::M<t::{n}> : model::StructModel<t::{n}, model::M<t::{n}>>\n{{\n    static t::{n} fresh() {{ return {{}}; }}\n    static auto tie(auto & s) {{ return std::tie({', '.join('s.' + x for x in ms)}); }}\n"
                   f"    static constexpr bool hostile = true, ordered = {'false' if 'unordered' in text else 'true'};\n    static constexpr std::size_t min_bytes = 0;\n}};\n")
    return out + "}\n" + models, full


def units(seed, families, nunits, cfgs):
    r = random.Random(seed)
    texts = ['#include "c27.hpp"\n'] * nunits
    for k in range(families):
        p = f"f{k}"
        text, full = family(r, p, r.choice([1, 1, 1, 2, 2, 3]))
        for c in r.sample(cfgs, 2):
            text += f"C27({p}_{c}, {full[0]}, {c})\n"
        texts[k % nunits] += text
    return [(f"g{i}.cpp", t) for i, t in enumerate(texts)]
