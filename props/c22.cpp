#include "c22.hpp"
PROPERTY("arithmetic32", 1) { c22::arithmetic<std::uint32_t>(ctx); }
PROPERTY("arithmetic64", 1) { c22::arithmetic<std::uint64_t>(ctx); }
PROPERTY("slices8", 1) { c22::slices<std::uint8_t, 9>(ctx); }
PROPERTY("slices64", 1) { c22::slices<std::uint64_t, 5>(ctx); }
PROPERTY("slices_char", 1) { c22::slices<char, 1>(ctx); }
