// The independent protobuf implementation: libprotobuf, behind byte strings only.
#pragma once
#include <cstddef>
#include <vector>
namespace pbo
{
using Bytes = std::vector<unsigned char>;
struct Schema
{
    Schema(const char * package, const char * text); // registers a .proto file
};
// Parses body as the message; false when libprotobuf rejects it. The dump lists every field in number
// order: number, then 8 bytes for a scalar, length and contents for bytes, a nested dump for a
// message, count and items for repeated fields, sorted entries for maps and sets.
bool dump(const char * message, const unsigned char * p, std::size_t n, Bytes & result);
// libprotobuf's own encoding of what it parsed.
bool reencode(const char * message, const unsigned char * p, std::size_t n, Bytes & result);
} // namespace pbo
