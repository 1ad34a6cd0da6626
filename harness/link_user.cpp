#include "link.hpp"
static int bad = 0;
static long ops = 0;
#define USE(N, O, T) \
  { \
    auto ck = [&](bool ok, char const * what) { ++ops; if (!ok) { ++bad; std::printf("FAIL|LINK|mixed translation units|link=" #N " %s|optional not understood by the other translation unit\n", what); } }; \
    O o; \
    ck(k##N##_ref(o, lv<T>(1), false), "empty by reference"); \
    ck(k##N##_val(o, lv<T>(1), false), "empty by value"); \
    o = lv<T>(2); \
    ck(k##N##_ref(o, lv<T>(2), true), "engaged by reference"); \
    ck(k##N##_val(o, lv<T>(2), true), "engaged by value"); \
    k##N##_set(o, lv<T>(3)); \
    ck(o.has_value() && leq(*o, lv<T>(3)), "set by the other over engaged"); \
    k##N##_clr(&o); \
    ck(!o.has_value(), "cleared by the other"); \
    ck(k##N##_ref(o, lv<T>(1), false), "cleared by reference"); \
    k##N##_set(o, lv<T>(5)); \
    ck(o.has_value() && leq(*o, lv<T>(5)), "set by the other over empty"); \
    std::vector<O> v; \
    for (int b = 0; b < 5; ++b) { v.emplace_back(); if (21 >> (4 - b) & 1) v.back() = lv<T>(b); } \
    ck(k##N##_vec(v) == 21, "vector"); \
  }
int main()
{
  KINDS(USE)
  std::printf("OPS=%ld\n", ops);
  return bad ? 1 : 0;
}
