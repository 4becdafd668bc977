#include "ops.hpp"
namespace ops
{
static std::vector<const Ops *> & list() { static std::vector<const Ops *> l; return l; }
void add(const Ops * o) { list().push_back(o); }
const Ops * const * all(std::size_t & n) { n = list().size(); return list().data(); }
} // namespace ops
