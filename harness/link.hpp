// C14: functions exchanging tiny optionals between two translation units.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <utility>
#include <type_traits>
#include <vector>
// The manipulator of a type may be declared with the help of the small forward declaration header, before or without optional.h.
#ifdef VH_FWD
  #include <tiny/optional_flag_manipulator_fwd.h>
#else
  #include <tiny/optional.h>
#endif
struct LM { int k; };
inline bool operator==(LM const & a, LM const & b) { return a.k == b.k; }
template <>
struct tiny::optional_flag_manipulator<LM>
{
  static bool is_empty(LM const & p) noexcept { return p.k == -77; }
  static void init_empty_flag(LM & p) noexcept { p.k = -77; }
  static void invalidate_empty_flag(LM &) noexcept { }
};
template <int N> struct LT { int k; };
template <int N> bool operator==(LT<N> const & a, LT<N> const & b) { return a.k == b.k; }
template <int N>
struct tiny::optional_flag_manipulator<LT<N>, std::enable_if_t<(N > 3)>>
{
  static bool is_empty(LT<N> const & p) noexcept { return p.k == N; }
  static void init_empty_flag(LT<N> & p) noexcept { p.k = N; }
  static void invalidate_empty_flag(LT<N> &) noexcept { }
};
#include <tiny/optional.h>
#include <tiny/optional_flag_manipulator_fwd.h>
static_assert(sizeof(tiny::optional<LM>) == sizeof(LM) && tiny::optional<LM>::is_compressed, "");
static_assert(sizeof(tiny::optional<LT<8>>) == sizeof(LT<8>) && sizeof(tiny::optional<LT<1>>) > sizeof(LT<1>), "");
struct LS { int m; double d; short s; };
struct LMan
{
  static bool is_empty(int const & p) noexcept { return p == -3; }
  static void init_empty_flag(int & p) noexcept { p = -3; }
  static void invalidate_empty_flag(int &) noexcept { }
};
struct LSV { static constexpr int value = -4; };
typedef void (*LFn)();
#define KINDS_A(X) \
  X(Int, tiny::optional<int>, int) \
  X(SInt, tiny::optional<int COMMA -1>, int) \
  X(Mem, tiny::optional<LS COMMA &LS::m COMMA -1>, LS) \
  X(MemS, tiny::optional<LS COMMA &LS::s COMMA -1>, LS) \
  X(Inp, tiny::optional_inplace<int COMMA LMan>, int) \
  X(Via, tiny::optional_sentinel_via_type<int COMMA LSV>, int) \
  X(ViaM, tiny::optional_sentinel_via_type<LS COMMA LSV COMMA &LS::m>, LS) \
  X(Aip, tiny::optional_aip<unsigned>, unsigned) \
  X(Dbl, tiny::optional<double>, double) \
  X(Flt, tiny::optional<float>, float) \
  X(Bool, tiny::optional<bool>, bool) \
  X(Ptr, tiny::optional<int *>, int *) \
  X(Fn, tiny::optional<LFn>, LFn) \
  X(Man, tiny::optional<LM>, LM) \
  X(Man8, tiny::optional<LT<8>>, LT<8>) \
  X(Man1, tiny::optional<LT<1>>, LT<1>) \
  X(Nest, tiny::optional<tiny::optional<int>>, tiny::optional<int>)
#ifdef VH_NOMEMBIT
  #define KINDS(X) KINDS_A(X)
#else
  #define KINDS(X) KINDS_A(X) X(MemD, tiny::optional<LS COMMA &LS::d>, LS)
#endif
#define COMMA ,
// For each kind: by reference, by value, in a container, by pointer.
#define DECL(N, O, T) \
  int k##N##_ref(O const & o, T const & expected, bool engaged); \
  void k##N##_set(O & o, T const & v); \
  void k##N##_clr(O * o); \
  int k##N##_val(O o, T const & expected, bool engaged); \
  int k##N##_vec(std::vector<O> const & v);
KINDS(DECL)
template <class T> T lv(int i);
template <> inline int lv<int>(int i) { return i; }
template <> inline unsigned lv<unsigned>(int i) { return static_cast<unsigned>(i); }
template <> inline double lv<double>(int i) { return i * 1.5; }
template <> inline float lv<float>(int i) { return i * 2.5f; }
template <> inline bool lv<bool>(int i) { return i % 2; }
template <> inline int * lv<int *>(int i) { return reinterpret_cast<int *>(static_cast<std::uintptr_t>(i * 16)); }
template <> inline LFn lv<LFn>(int i) { return reinterpret_cast<LFn>(static_cast<std::uintptr_t>(i * 16)); }
template <> inline LM lv<LM>(int i) { return LM{i}; }
template <> inline LT<8> lv<LT<8>>(int i) { return LT<8>{i}; }
template <> inline LT<1> lv<LT<1>>(int i) { return LT<1>{i}; }
template <> inline LS lv<LS>(int i) { return LS{i, i * 1.25, static_cast<short>(i)}; }
template <> inline tiny::optional<int> lv<tiny::optional<int>>(int i) { return tiny::optional<int>(i); }
template <class T> bool leq(T const & a, T const & b) { return a == b; }
inline bool leq(LS const & a, LS const & b) { return a.m == b.m && a.d == b.d && a.s == b.s; }
