#include "pb_oracle.hpp"
#include "engine.hpp"
#include <algorithm>
#include <cstdlib>
#include <google/protobuf/compiler/parser.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/io/coded_stream.h>
#include <google/protobuf/io/tokenizer.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <map>
#include <memory>
#include <string>

namespace gp = google::protobuf;
namespace pbo
{
namespace
{
struct Errors : gp::io::ErrorCollector, gp::DescriptorPool::ErrorCollector
{
    void AddError(int line, int column, const std::string & m) override { std::fprintf(stderr, "schema:%d:%d: %s\n", line, column, m.c_str()); }
    void AddError(const std::string & f, const std::string & e, const gp::Message *, ErrorLocation, const std::string & m) override { std::fprintf(stderr, "schema %s: %s: %s\n", f.c_str(), e.c_str(), m.c_str()); }
};
struct World
{
    gp::DescriptorPool pool;
    std::unique_ptr<gp::DynamicMessageFactory> factory;
    std::map<std::string, const gp::Message *> prototypes;
};
std::vector<std::pair<const char *, const char *>> & schemas()
{
    static std::vector<std::pair<const char *, const char *>> s;
    return s;
}
World & world()
{
    static World * w = [] {
        gp::SetLogHandler(nullptr);
        auto w = new World;
        Errors errors;
        for (auto [package, text] : schemas()) {
            gp::io::ArrayInputStream stream(text, int(std::strlen(text)));
            gp::io::Tokenizer tokenizer(&stream, &errors);
            gp::compiler::Parser parser;
            parser.RecordErrorsTo(&errors);
            gp::FileDescriptorProto file;
            bool ok = parser.Parse(&tokenizer, &file);
            file.set_name(std::string(package) + ".proto");
            if (!ok || !w->pool.BuildFileCollectingErrors(file, &errors)) {
                std::fprintf(stderr, "the generated schema is not valid:\n%s\n", text);
                std::abort();
            }
        }
        w->factory = std::make_unique<gp::DynamicMessageFactory>(&w->pool);
        return w;
    }();
    return *w;
}
const gp::Message & prototype(const char * name)
{
    auto & w = world();
    auto & p = w.prototypes[name];
    if (!p) {
        auto d = w.pool.FindMessageTypeByName(name);
        if (!d) { std::fprintf(stderr, "no message %s\n", name); std::abort(); }
        p = w.factory->GetPrototype(d);
    }
    return *p;
}

void put(std::string & s, std::uint64_t v) { s.append(reinterpret_cast<const char *>(&v), 8); }
void put_bytes(std::string & s, const std::string & b) { put(s, b.size()); s += b; }
template <typename T> std::uint64_t bits(T v) { std::uint64_t r = 0; std::memcpy(&r, &v, sizeof v); return r; }

void dump_message(const gp::Message & m, std::string & out);
// index < 0: singular
std::string dump_value(const gp::Message & m, const gp::FieldDescriptor * f, int i)
{
    auto r = m.GetReflection();
    using F = gp::FieldDescriptor;
    std::string s;
    switch (f->cpp_type()) {
    case F::CPPTYPE_INT32: put(s, std::uint64_t(std::int64_t(i < 0 ? r->GetInt32(m, f) : r->GetRepeatedInt32(m, f, i)))); break;
    case F::CPPTYPE_INT64: put(s, std::uint64_t(i < 0 ? r->GetInt64(m, f) : r->GetRepeatedInt64(m, f, i))); break;
    case F::CPPTYPE_UINT32: put(s, i < 0 ? r->GetUInt32(m, f) : r->GetRepeatedUInt32(m, f, i)); break;
    case F::CPPTYPE_UINT64: put(s, i < 0 ? r->GetUInt64(m, f) : r->GetRepeatedUInt64(m, f, i)); break;
    case F::CPPTYPE_DOUBLE: put(s, bits(i < 0 ? r->GetDouble(m, f) : r->GetRepeatedDouble(m, f, i))); break;
    case F::CPPTYPE_FLOAT: put(s, bits(i < 0 ? r->GetFloat(m, f) : r->GetRepeatedFloat(m, f, i))); break;
    case F::CPPTYPE_BOOL: put(s, i < 0 ? r->GetBool(m, f) : r->GetRepeatedBool(m, f, i)); break;
    case F::CPPTYPE_ENUM: put(s, std::uint64_t(std::int64_t(i < 0 ? r->GetEnumValue(m, f) : r->GetRepeatedEnumValue(m, f, i)))); break;
    case F::CPPTYPE_STRING: put_bytes(s, i < 0 ? r->GetString(m, f) : r->GetRepeatedString(m, f, i)); break;
    case F::CPPTYPE_MESSAGE: dump_message(i < 0 ? r->GetMessage(m, f) : r->GetRepeatedMessage(m, f, i), s); break;
    }
    return s;
}
void dump_message(const gp::Message & m, std::string & out)
{
    auto d = m.GetDescriptor();
    std::vector<const gp::FieldDescriptor *> fields;
    for (int i = 0; i < d->field_count(); ++i) fields.push_back(d->field(i));
    std::sort(fields.begin(), fields.end(), [](auto a, auto b) { return a->number() < b->number(); });
    for (auto f : fields) {
        put(out, std::uint64_t(f->number()));
        if (!f->is_repeated()) {
            out += dump_value(m, f, -1);
            continue;
        }
        std::vector<std::string> items;
        auto r = m.GetReflection();
        for (int i = 0; i < r->FieldSize(m, f); ++i) items.push_back(dump_value(m, f, i));
        if (f->is_map() || f->name().rfind("map", 0) == 0) { // the last entry of a key wins
            std::map<std::string, std::string> last;
            for (std::size_t i = 0; i < items.size(); ++i) {
                auto & e = r->GetRepeatedMessage(m, f, int(i));
                last[dump_value(e, e.GetDescriptor()->FindFieldByNumber(1), -1)] = items[i];
            }
            items.clear();
            for (auto & [k, v] : last) items.push_back(v);
            std::sort(items.begin(), items.end());
        } else if (f->name().rfind("set", 0) == 0) {
            std::sort(items.begin(), items.end());
            items.erase(std::unique(items.begin(), items.end()), items.end());
        } else if (f->name().rfind("mset", 0) == 0) {
            std::sort(items.begin(), items.end());
        }
        put(out, items.size());
        for (auto & x : items) out += x;
    }
}

// Runs f outside the accounting of the engine and hands its string over.
template <typename F>
bool outside(Bytes & result, F && f)
{
    auto saved = eng::alloc();
    auto cap = eng::alloc_cap;
    eng::alloc_cap = ~std::size_t{0};
    bool ok;
    void * copy = nullptr;
    std::size_t n = 0;
    {
        std::string s;
        ok = f(s);
        n = s.size();
        copy = std::malloc(n ? n : 1);
        if (n) std::memcpy(copy, s.data(), n);
    }
    eng::alloc() = saved;
    eng::alloc_cap = cap;
    auto b = static_cast<unsigned char *>(copy);
    if (ok) result.assign(b, b + n);
    std::free(copy);
    return ok;
}
} // namespace

Schema::Schema(const char * package, const char * text) { schemas().emplace_back(package, text); }

bool dump(const char * message, const unsigned char * p, std::size_t n, Bytes & result)
{
    return outside(result, [&](std::string & s) {
        std::unique_ptr<gp::Message> m(prototype(message).New());
        if (!m->ParseFromArray(p, int(n))) return false;
        dump_message(*m, s);
        return true;
    });
}
bool reencode(const char * message, const unsigned char * p, std::size_t n, Bytes & result)
{
    return outside(result, [&](std::string & s) {
        std::unique_ptr<gp::Message> m(prototype(message).New());
        return m->ParseFromArray(p, int(n)) && m->SerializeToString(&s);
    });
}
} // namespace pbo
