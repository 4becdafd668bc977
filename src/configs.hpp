#pragma once
#include "ops.hpp"
namespace cfgs
{
namespace e = zpp::bits::endian;
using namespace zpp::bits::options;
using vb = std::vector<std::byte>;
using vc = std::vector<char>;
using vu = std::vector<unsigned char>;
using st = std::string;
ARCHIVE_CFG(plain, std::byte, vb, false, model::SP_4, true)
ARCHIVE_CFG(plain_char, char, vc, false, model::SP_4, true)
ARCHIVE_CFG(plain_uchar, unsigned char, vu, false, model::SP_4, true)
ARCHIVE_CFG(plain_string, char, st, false, model::SP_4, true)
ARCHIVE_CFG(little, std::byte, vb, false, model::SP_4, true, e::little{})
ARCHIVE_CFG(native, unsigned char, vu, false, model::SP_4, true, e::native{})
ARCHIVE_CFG(big, std::byte, vb, true, model::SP_4, true, e::big{})
ARCHIVE_CFG(network, char, st, true, model::SP_4, true, e::network{})
ARCHIVE_CFG(swapped, unsigned char, vu, true, model::SP_4, true, e::swapped{})
ARCHIVE_CFG(s1, std::byte, vb, false, model::SP_1, true, size1b{})
ARCHIVE_CFG(s2, char, vc, false, model::SP_2, true, size2b{})
ARCHIVE_CFG(s4, unsigned char, vu, false, model::SP_4, true, size4b{})
ARCHIVE_CFG(s8, std::byte, vb, false, model::SP_8, true, size8b{})
ARCHIVE_CFG(snative, std::byte, vb, false, model::SP_8, true, size_native{})
ARCHIVE_CFG(svarint, std::byte, vb, false, model::SP_VARINT, true, size_varint{})
ARCHIVE_CFG(big_s1, char, st, true, model::SP_1, true, e::big{}, size1b{})
ARCHIVE_CFG(big_s2, std::byte, vb, true, model::SP_2, true, size2b{}, e::big{})
ARCHIVE_CFG(big_s8, unsigned char, vu, true, model::SP_8, true, e::big{}, size8b{})
ARCHIVE_CFG(big_svarint, std::byte, vb, true, model::SP_VARINT, true, e::big{}, size_varint{})
} // namespace cfgs
