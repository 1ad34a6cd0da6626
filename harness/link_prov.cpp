#include "link.hpp"
#define DEF(N, O, T) \
  int k##N##_ref(O const & o, T const & e, bool engaged) { return o.has_value() == engaged && (!engaged || leq(*o, e)); } \
  void k##N##_set(O & o, T const & v) { o = static_cast<T>(v); } \
  void k##N##_clr(O * o) { o->reset(); } \
  int k##N##_val(O o, T const & e, bool engaged) { return o.has_value() == engaged && (!engaged || leq(*o, e)); } \
  int k##N##_vec(std::vector<O> const & v) { int n = 0; for (auto const & o : v) n = n * 2 + (o ? 1 : 0); return n; }
KINDS(DEF)
