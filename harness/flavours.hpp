// The flavours (payload type x representation of emptiness) that the explorer is instantiated for.
#pragma once
#include "ops.hpp"

#include <cmath>
#include <limits>
#include <string>
#include <vector>

namespace vh
{
template <class M_, std::size_t TAIL_ = 1, std::size_t ALIGN_ = 4>
struct LBase
{
  using M = M_;
  static constexpr std::size_t TAIL = TAIL_;
  static constexpr std::size_t CMP = sizeof(M);
  static constexpr std::size_t ALIGN = ALIGN_ > alignof(M) ? ALIGN_ : (alignof(M) > 4 ? alignof(M) : 4);
};
struct LPlain : LBase<unsigned char> { static M good(int v) { return static_cast<M>(v + 40); } };
struct LPlain3 : LBase<unsigned char, 3> { static M good(int v) { return static_cast<M>(v + 40); } };
template <std::size_t N>
struct LBig : LBase<unsigned char, N> { static unsigned char good(int v) { return static_cast<unsigned char>(v + 40); } };
template <std::size_t A>
struct LAligned : LBase<unsigned char, 1, A> { static unsigned char good(int v) { return static_cast<unsigned char>(v + 40); } };
struct LInt : LBase<int> { static M good(int v) { return v == 1 ? 0 : v == 2 ? -2 : v; } };
struct LUChar : LBase<unsigned char> { static M good(int v) { return static_cast<M>(v == 1 ? 0 : v == 2 ? 254 : v); } };
struct LLL : LBase<long long> { static M good(int v) { return v == 1 ? 0x00000000ffffffffLL : v == 2 ? -4294967296LL : v; } };
struct LDouble : LBase<double>
{
  static M good(int v)
  {
    std::uint64_t const b = v == 1 ? 0x7ff8fedcba987655u : v == 2 ? 0x7ff8fedcba980000u : v == MOVED ? 0x8000000000000000u : 0x7ff8000000000000u + static_cast<unsigned>(v);
    M r;
    std::memcpy(&r, &b, sizeof r);
    return r;
  }
};
struct LFloat : LBase<float>
{
  static M good(int v)
  {
    std::uint32_t const b = v == 1 ? 0x7fedcba8u : v == 2 ? 0x7fedcb00u : v == MOVED ? 0x80000000u : 0x7fc00000u + static_cast<unsigned>(v);
    M r;
    std::memcpy(&r, &b, sizeof r);
    return r;
  }
};
struct LBool : LBase<bool> { static M good(int v) { return v % 2 == 0; } };
struct LPtr : LBase<void *>
{
  static M good(int v)
  {
    return v == 1 ? nullptr : v == 2 ? reinterpret_cast<void *>(~std::uintptr_t(0)) : reinterpret_cast<void *>(static_cast<std::uintptr_t>(v) * 8u);
  }
};
struct LFn : LBase<void (*)()>
{
  static M good(int v) { return v == 1 ? nullptr : reinterpret_cast<void (*)()>(static_cast<std::uintptr_t>(v) * 16u + 1u); }
};
enum class PlainEnum : short
{
  a, b, c, invalid = -3
};
struct LEnum : LBase<PlainEnum> { static M good(int v) { return static_cast<PlainEnum>(v == 2 ? -4 : v); } };

// Members with a custom flag manipulator.
enum class ManipEnum : int
{
  empty = 4711
};
struct ManipMember
{
  int x;
  int y;
};
struct LManipEnum : LBase<ManipEnum> { static M good(int v) { return static_cast<ManipEnum>(v == 2 ? 4712 : v); } };
struct LManipMember : LBase<ManipMember> { static M good(int v) { return M{v, -v}; } };

// Types with a manipulator for the whole payload.
struct LWhole : LBase<int> { static M good(int v) { return v == 1 ? 0 : -v; } };
using PayWholeT = Pay<LWhole, 0>;
using PayWholeN = Pay<LWhole, NX_ALL>;
struct LInplace : LBase<int> { static M good(int v) { return v == 1 ? 0 : -v; } };

// A manipulator that keeps the flag in the int at byte offset Off of the memory and follows the protocol monitor.
template <class P, std::size_t Off, int Empty>
struct TrackedManip
{
  static unsigned char * raw(P const & p) noexcept
  {
    return const_cast<unsigned char *>(static_cast<unsigned char const volatile *>(static_cast<void const volatile *>(std::addressof(p)))) + Off;
  }
  static bool is_empty(P const & p) noexcept
  {
    int x;
    std::memcpy(&x, raw(p), sizeof x);
    return x == Empty;
  }
  static void init_empty_flag(P & p) noexcept
  {
    G.flagInit(raw(p) - Off, sizeof(P));
    int const x = Empty;
    std::memcpy(raw(p), &x, sizeof x);
  }
  static void invalidate_empty_flag(P & p) noexcept
  {
    G.flagInvalidate(raw(p) - Off);
    scribble(raw(p), sizeof(int), 0xE7);
  }
};
} // namespace vh

template <>
struct tiny::optional_flag_manipulator<vh::ManipEnum> : vh::TrackedManip<vh::ManipEnum, 0, 4711>
{
};
template <>
struct tiny::optional_flag_manipulator<vh::ManipMember> : vh::TrackedManip<vh::ManipMember, 4, 4711>
{
};
namespace vh
{
struct TrivManip;
}
template <>
struct tiny::optional_flag_manipulator<vh::TrivManip> : vh::TrackedManip<vh::TrivManip, 4, 4711>
{
};
template <unsigned NX>
struct tiny::optional_flag_manipulator<vh::Pay<vh::LWhole, NX>> : vh::TrackedManip<vh::Pay<vh::LWhole, NX>, 4, 4711>
{
};

namespace vh
{
// ---- Payloads with restricted special members
#define VH_DERIVED(NAME, NX, ...)                                                                                      \
  struct NAME : Pay<LPlain3, NX>                                                                                       \
  {                                                                                                                    \
    using Base = Pay<LPlain3, NX>;                                                                                     \
    using Base::Base;                                                                                                  \
    using Base::operator=;                                                                                             \
    NAME() = default;                                                                                                  \
    ~NAME() = default;                                                                                                 \
    __VA_ARGS__                                                                                                        \
  };                                                                                                                   \
  template <>                                                                                                          \
  struct Dom<NAME> : DomTracked<NAME>                                                                                  \
  {                                                                                                                    \
  }
VH_DERIVED(MoveOnly, 0, MoveOnly(MoveOnly &&) = default; MoveOnly & operator=(MoveOnly &&) = default;);
VH_DERIVED(MoveOnlyN, NX_ALL, MoveOnlyN(MoveOnlyN &&) = default; MoveOnlyN & operator=(MoveOnlyN &&) = default;);
VH_DERIVED(CopyOnly, 0, CopyOnly(CopyOnly const &) = default; CopyOnly & operator=(CopyOnly const &) = default;);
VH_DERIVED(NoAssign, 0, NoAssign(NoAssign const &) = default; NoAssign(NoAssign &&) = default; NoAssign & operator=(NoAssign const &) = delete; NoAssign & operator=(NoAssign &&) = delete;);
VH_DERIVED(Immovable, 0, Immovable(Immovable const &) = delete; Immovable & operator=(Immovable const &) = delete;);
VH_DERIVED(ImmovableN, NX_ALL, ImmovableN(ImmovableN const &) = delete; ImmovableN & operator=(ImmovableN const &) = delete;);
VH_DERIVED(
    Evil, 0, Evil(Evil const &) = default; Evil(Evil &&) = default; Evil & operator=(Evil const &) = default; Evil & operator=(Evil &&) = default;
    void operator&() const = delete; template <class X> void operator,(X &&) const = delete; static void * operator new(std::size_t) = delete;
    static void * operator new(std::size_t, void *) = delete;);

// Payloads whose conversions are explicit (the optional's constructor is then another overload).
template <class Lay>
struct Expl : Pay<Lay, 0>
{
  using Base = Pay<Lay, 0>;
  typename Lay::M mm;
  void sync() { typename Lay::M g = Lay::good(this->v); std::memcpy(&mm, &g, sizeof g); }
  Expl() { sync(); }
  template <class U, IfVal<U> = 0>
  explicit Expl(U && x) : Base(std::forward<U>(x)) { sync(); }
  template <class U, class I, IfVal<U> = 0, IfInt<I> = 0>
  explicit Expl(U && x, I && y) : Base(std::forward<U>(x), std::forward<I>(y)) { sync(); }
  template <class... I>
  explicit Expl(std::initializer_list<int> il, I &&... y) : Base(il, std::forward<I>(y)...) { sync(); }
  Expl(Expl const & o) : Base(o) { sync(); }
  Expl(Expl && o) : Base(std::move(static_cast<Base &>(o))) { sync(); o.sync(); }
  Expl & operator=(Expl const & o) { Base::operator=(o); sync(); return *this; }
  Expl & operator=(Expl && o) { Base::operator=(std::move(static_cast<Base &>(o))); sync(); o.sync(); return *this; }
  template <class U, IfVal<U> = 0>
  Expl & operator=(U && x) { Base::operator=(std::forward<U>(x)); sync(); return *this; }
  friend void swap(Expl & a, Expl & b) { swap(static_cast<Base &>(a), static_cast<Base &>(b)); a.sync(); b.sync(); }
  bool ok2() const { typename Lay::M g = Lay::good(this->v); return this->ok() && std::memcmp(&mm, &g, sizeof g) == 0; }
};
template <class Lay>
struct Dom<Expl<Lay>> : DomTracked<Expl<Lay>>
{
  static int id(Expl<Lay> const & t) { return t.ok2() ? t.get() : -1; }
  static void set(Expl<Lay> & t, int i) { t.set(i + 1); t.sync(); }
};

#if __cplusplus >= 202002L
// Restricted special members for a payload with a flag member (needs C++20 to be expressed in one template).
template <class Lay, unsigned NX, bool Copy, bool Move>
struct PayR : Pay<Lay, NX>
{
  typename Lay::M mm; // the flag member must be a member of the class itself
  void operator&() const = delete;
  static void * operator new(std::size_t) = delete;
  static void * operator new(std::size_t, void *) = delete;
  using Base = Pay<Lay, NX>;
  void sync() { typename Lay::M g = Lay::good(this->v); std::memcpy(&mm, &g, sizeof g); }
  PayR() : Base() { sync(); }
  template <class U, IfVal<U> = 0>
  PayR(U && x) noexcept((NX & NX_VAL) != 0) : Base(std::forward<U>(x)) { sync(); }
  template <class U, class I, IfVal<U> = 0, IfInt<I> = 0>
  PayR(U && x, I && y) noexcept((NX & NX_VAL) != 0) : Base(std::forward<U>(x), std::forward<I>(y)) { sync(); }
  PayR(std::initializer_list<int> il, int y = 0) noexcept((NX & NX_DEF) != 0) : Base(il, y) { sync(); }
  PayR(PayR const & o) noexcept((NX & NX_CC) != 0) requires(Copy) : Base(o) { sync(); }
  PayR(PayR && o) noexcept((NX & NX_MC) != 0) requires(Move) : Base(std::move(static_cast<Base &>(o))) { sync(); o.sync(); }
  PayR & operator=(PayR const & o) noexcept((NX & NX_CA) != 0) requires(Copy) { Base::operator=(o); sync(); return *this; }
  PayR & operator=(PayR && o) noexcept((NX & NX_MA) != 0) requires(Move) { Base::operator=(std::move(static_cast<Base &>(o))); sync(); o.sync(); return *this; }
  template <class U, IfVal<U> = 0>
  PayR & operator=(U && x) noexcept((NX & NX_VA) != 0) { Base::operator=(std::forward<U>(x)); sync(); return *this; }
  friend void swap(PayR & a, PayR & b) noexcept((NX & NX_SWAP) != 0) { swap(static_cast<Base &>(a), static_cast<Base &>(b)); a.sync(); b.sync(); }
  bool ok2() const { typename Lay::M g = Lay::good(this->v); return this->ok() && std::memcmp(&mm, &g, sizeof g) == 0; }
};
template <class Lay, unsigned NX, bool Copy, bool Move>
struct Dom<PayR<Lay, NX, Copy, Move>> : DomTracked<PayR<Lay, NX, Copy, Move>>
{
  static int id(PayR<Lay, NX, Copy, Move> const & t) { return t.ok2() ? t.get() : -1; }
  static void set(PayR<Lay, NX, Copy, Move> & t, int i) { t.set(i + 1); t.sync(); }
};
#endif

// ---- Scalars: a table of interesting values; raw comparison
template <class T>
struct DomScalar
{
  static constexpr bool tracked = false;
  static constexpr bool rawKey = true;
  static constexpr bool guide = true;
  static constexpr bool cmpNull = true;
  static constexpr bool eq = true;
  static constexpr bool less = true;
  static constexpr bool ilist = false;
  static constexpr int N = 3;
};
template <class T, class Derived>
struct DomTable : DomScalar<T>
{
  static T arg(int i) { return Derived::at(i); }
  static T make(int i) { return Derived::at(i); }
  static void set(T & t, int i) { t = Derived::at(i); }
  static int id(T const & t)
  {
    for (int i = 0; i < Derived::N; ++i) {
      T const x = Derived::at(i);
      if (std::memcmp(const_cast<void const *>(static_cast<void const volatile *>(std::addressof(t))), &x, sizeof x) == 0) {
        return i + 1;
      }
    }
    return -1;
  }
};
template <class T>
struct Dom<T, std::enable_if_t<std::is_integral_v<T> && !std::is_const_v<T> && !std::is_volatile_v<T> && !std::is_same_v<T, bool>>> : DomTable<T, Dom<T>>
{
  static T at(int i)
  {
    // Sentinels used below: -1 / 255 style values at the border; the values here are their neighbours, 0 and a border.
    return i == 0 ? T(0) : i == 1 ? static_cast<T>(std::numeric_limits<T>::max() - 1) : static_cast<T>(std::numeric_limits<T>::lowest() + 1);
  }
};
template <>
struct Dom<bool> : DomTable<bool, Dom<bool>>
{
  static constexpr int N = 2;
  static bool at(int i) { return i == 1; }
};
template <>
struct Dom<float> : DomTable<float, Dom<float>>
{
#ifdef VH_FASTMATH
  static constexpr bool eq = false;
  static constexpr bool less = false;
#endif
  static float at(int i)
  {
    std::uint32_t const b = i == 0 ? 0x80000000u : i == 1 ? 0x7fedcba8u : 0x7fc00000u;
    float r;
    std::memcpy(&r, &b, sizeof r);
    return r;
  }
};
template <>
struct Dom<double> : DomTable<double, Dom<double>>
{
#ifdef VH_FASTMATH
  static constexpr bool eq = false;
  static constexpr bool less = false;
#endif
  static double at(int i)
  {
    std::uint64_t const b = i == 0 ? 0x8000000000000000u : i == 1 ? 0x7ff8fedcba987655u : 0x7ff8000000000000u;
    double r;
    std::memcpy(&r, &b, sizeof r);
    return r;
  }
};
template <>
struct Dom<long double> : DomScalar<long double>
{
  static long double at(int i) { return i == 0 ? -0.0L : i == 1 ? 1.5L : -2.25L; }
  static long double arg(int i) { return at(i); }
  static long double make(int i) { return at(i); }
  static void set(long double & t, int i) { t = at(i); }
  static int id(long double const & t) { return t == 1.5L ? 2 : t == -2.25L ? 3 : t == 0.0L ? 1 : -1; }
};
template <class T>
struct Dom<T *> : DomTable<T *, Dom<T *>>
{
  static constexpr bool less = !std::is_function_v<T>;
  static T * at(int i)
  {
    constexpr std::uintptr_t sent = sizeof(void *) == 8 ? static_cast<std::uintptr_t>(0xffff800000000000ull - 1) : static_cast<std::uintptr_t>(0xffffffffu - 8);
    return i == 0 ? nullptr : i == 1 ? reinterpret_cast<T *>(sent + 1) : reinterpret_cast<T *>(~std::uintptr_t(0));
  }
};
template <class T>
struct Dom<T, std::enable_if_t<std::is_enum_v<T> && !std::is_const_v<T> && !std::is_volatile_v<T>>> : DomTable<T, Dom<T>>
{
  static T at(int i) { return static_cast<T>(i == 0 ? 0 : i == 1 ? -2 : -4); }
};
struct SomeClass
{
  int a;
  int b;
};
template <>
struct Dom<int SomeClass::*> : DomTable<int SomeClass::*, Dom<int SomeClass::*>>
{
  static constexpr bool less = false;
  static int SomeClass::*at(int i) { return i == 0 ? nullptr : i == 1 ? &SomeClass::a : &SomeClass::b; }
};

// ---- Library types
template <>
struct Dom<std::string> : DomScalar<std::string>
{
  static constexpr bool rawKey = false; // contains addresses of heap memory
  static constexpr int N = 2;
  static std::string at(int i) { return i == 0 ? std::string("s") : std::string(100, 'L'); }
  static std::string arg(int i) { return at(i); }
  static std::string make(int i) { return at(i); }
  static void set(std::string & t, int i) { t = at(i); }
  static int id(std::string const & t) { return t == "s" ? 1 : t == std::string(100, 'L') ? 2 : t.empty() ? 3 : -1; }
};
template <>
struct Dom<std::vector<int>> : DomScalar<std::vector<int>>
{
  static constexpr bool rawKey = false; // contains addresses of heap memory
  static constexpr int N = 2;
  using T = std::vector<int>;
  static T at(int i) { return i == 0 ? T{} : T{1, 2, 3}; }
  static T arg(int i) { return at(i); }
  static T make(int i) { return at(i); }
  static void set(T & t, int i) { t = at(i); }
  static int id(T const & t) { return t.empty() ? 1 : t.size() == 3 && t[0] == 1 && t[1] == 2 && t[2] == 3 ? 2 : -1; }
};
template <>
struct Dom<std::unique_ptr<int>> : DomScalar<std::unique_ptr<int>>
{
  static constexpr bool rawKey = false; // contains addresses of heap memory
  static constexpr bool eq = false;
  static constexpr bool less = false;
  static constexpr int N = 2;
  using T = std::unique_ptr<int>;
  static T at(int i) { return i == 0 ? T{} : T(new int(7)); }
  static T arg(int i) { return at(i); }
  static T make(int i) { return at(i); }
  static void set(T & t, int i) { t = at(i); }
  static int id(T const & t) { return !t ? 1 : *t == 7 ? 2 : -1; }
};
// Nested tiny optionals as payload.
template <class P, auto s, auto i_>
struct Dom<tiny::optional<P, s, i_>> : DomScalar<tiny::optional<P, s, i_>>
{
  static constexpr bool guide = false; // deduction copies instead of nesting
  static constexpr bool cmpNull = false; // gcc lacks CWG 2445, so the std::optional reference picks the wrong overload
  static constexpr bool eq = false;
  static constexpr bool less = false;
  static constexpr int N = 3;
  using T = tiny::optional<P, s, i_>;
  static T at(int i) { return i == 0 ? T{} : T(Dom<P>::at(i - 1)); }
  static T arg(int i) { return at(i); }
  static T make(int i) { return at(i); }
  static void set(T & t, int i) { t = at(i); }
  static int id(T const & t) { return t.has_value() ? 1 + Dom<P>::id(*t) : 1; }
};
struct MemberAggregate
{
  tiny::optional<bool> flag;
  int x;
};

// ---- Classes with trivial special members, with and without padding; empty, polymorphic and partly trivial classes
struct TrivA
{
  int a;
  char b; // followed by padding
  friend bool operator==(TrivA const & x, TrivA const & y) { return x.a == y.a && x.b == y.b; }
  friend bool operator!=(TrivA const & x, TrivA const & y) { return !(x == y); }
};
struct TrivD
{
  char c;
  double d;
  int * p;
  bool f;
};
struct TrivI
{
  short s;
  int i;
  unsigned char u;
};
struct TrivManip
{
  int a;
  int b;
};
struct Empty
{
};
struct TrivNoAssign
{
  int const a;
  int const b;
};
struct TrivDtor // non-trivial copies, trivial destructor
{
  int a, b;
  TrivDtor(int a_, int b_) : a(a_), b(b_) { }
  TrivDtor(TrivDtor const & o) noexcept : a(o.a), b(o.b) { }
  TrivDtor(TrivDtor && o) noexcept : a(o.a), b(o.b) { o.b = -5; }
  TrivDtor & operator=(TrivDtor const & o) noexcept { a = o.a; b = o.b; return *this; }
  TrivDtor & operator=(TrivDtor && o) noexcept { a = o.a; b = o.b; if (&o != this) o.b = -5; return *this; }
};
struct Poly
{
  int a;
  explicit Poly(int x) : a(x) { }
  virtual ~Poly() { a = -77; }
  virtual int val() const { return a; }
};
struct PolyD final : Poly
{
  int extra = 5;
  explicit PolyD(int x) : Poly(x) { }
  int val() const override { return extra == 5 ? a : -1; }
};
// Constructible and assignable from everything.
struct Greedy
{
  int a;
  Greedy(Greedy const & o) noexcept : a(o.a) { }
  Greedy & operator=(Greedy const & o) noexcept { a = o.a; return *this; }
  template <class U, std::enable_if_t<!std::is_same_v<std::remove_cv_t<std::remove_reference_t<U>>, Greedy>, int> = 0>
  Greedy(U && u) : a(99)
  {
    if constexpr (std::is_same_v<std::remove_cv_t<std::remove_reference_t<U>>, Val>) a = u.i;
  }
};
template <class T_, class Derived>
struct DomClass : DomScalar<T_>
{
  using T = T_;
  static constexpr bool rawKey = false;
  static constexpr bool eq = false;
  static constexpr bool less = false;
  static constexpr int N = 2;
  static T arg(int i) { return Derived::make(i); }
  static void set(T & t, int i) { t = Derived::make(i); }
};
template <>
struct Dom<TrivA> : DomClass<TrivA, Dom<TrivA>>
{
  static constexpr bool eq = true;
  static TrivA make(int i) { return i ? TrivA{-1, 'x'} : TrivA{0, '\0'}; }
  static int id(TrivA const & t) { return t == make(0) ? 1 : t == make(1) ? 2 : -1; }
};
template <>
struct Dom<TrivD> : DomClass<TrivD, Dom<TrivD>>
{
  static TrivD make(int i)
  {
    TrivD t{};
    t.c = static_cast<char>('a' + i);
    t.d = i ? -0.0 : 1.5;
    t.p = i ? nullptr : reinterpret_cast<int *>(~std::uintptr_t(0));
    t.f = i != 0;
    return t;
  }
  static bool same(TrivD const & x, TrivD const & y) { return x.c == y.c && std::memcmp(&x.d, &y.d, sizeof x.d) == 0 && x.p == y.p && x.f == y.f; }
  static int id(TrivD const & t) { return same(t, make(0)) ? 1 : same(t, make(1)) ? 2 : -1; }
};
template <>
struct Dom<TrivI> : DomClass<TrivI, Dom<TrivI>>
{
  static TrivI make(int i) { return i ? TrivI{-2, -2, 254} : TrivI{0, 0, 0}; }
  static int id(TrivI const & t) { return t.s == 0 && t.i == 0 && t.u == 0 ? 1 : t.s == -2 && t.i == -2 && t.u == 254 ? 2 : -1; }
};
template <>
struct Dom<TrivManip> : DomClass<TrivManip, Dom<TrivManip>>
{
  static TrivManip make(int i) { return i ? TrivManip{4711, 4712} : TrivManip{0, 0}; }
  static int id(TrivManip const & t) { return t.a == 0 && t.b == 0 ? 1 : t.a == 4711 && t.b == 4712 ? 2 : -1; }
};
template <>
struct Dom<Greedy> : DomClass<Greedy, Dom<Greedy>>
{
  static constexpr bool guide = false;
  static Val arg(int i) { return Val{i + 1}; }
  static Greedy make(int i) { return Greedy(Val{i + 1}); }
  static int id(Greedy const & t) { return t.a; }
};
template <>
struct Dom<Empty> : DomClass<Empty, Dom<Empty>>
{
  static constexpr int N = 1;
  static Empty make(int) { return {}; }
  static int id(Empty const &) { return 1; }
};
template <>
struct Dom<TrivNoAssign> : DomClass<TrivNoAssign, Dom<TrivNoAssign>>
{
  static TrivNoAssign make(int i) { return TrivNoAssign{i, -i - 1}; }
  static void set(TrivNoAssign &, int) { }
  static int id(TrivNoAssign const & t) { return t.b == -t.a - 1 && (t.a == 0 || t.a == 1) ? t.a + 1 : -1; }
};
template <>
struct Dom<TrivDtor> : DomClass<TrivDtor, Dom<TrivDtor>>
{
  static TrivDtor make(int i) { return TrivDtor(i, -i - 1); }
  static int id(TrivDtor const & t) { return t.b == -5 ? t.a + 10 : t.b == -t.a - 1 ? t.a + 1 : -1; }
};
template <>
struct Dom<PolyD> : DomClass<PolyD, Dom<PolyD>>
{
  static PolyD make(int i) { return PolyD(i + 1); }
  static int id(PolyD const & t) { Poly const & b = t; return b.val(); }
};
template <>
struct Dom<std::optional<int>> : DomClass<std::optional<int>, Dom<std::optional<int>>>
{
  static constexpr bool guide = false;
  static constexpr bool cmpNull = false;
  static constexpr int N = 2;
  static std::optional<int> make(int i) { return i ? std::optional<int>(3) : std::nullopt; }
  static int id(std::optional<int> const & t) { return !t ? 1 : *t == 3 ? 2 : -1; }
};

template <>
struct Dom<std::pair<int, double>> : DomClass<std::pair<int, double>, Dom<std::pair<int, double>>>
{
  static constexpr bool eq = true;
  static constexpr bool less = true;
  static T make(int i) { return i ? T(-1, 2.5) : T(8, -0.0); }
  static int id(T const & t) { return t.first == -1 && t.second == 2.5 ? 2 : t.first == 8 && t.second == 0.0 && std::signbit(t.second) ? 1 : -1; }
};
inline auto makeClosure(int i) { return [i] { return i; }; }
using Closure = decltype(makeClosure(0));
template <>
struct Dom<Closure> : DomClass<Closure, Dom<Closure>>
{
  static T make(int i) { return makeClosure(i); }
  static void set(T &, int) { }
  static int id(T const & t) { return t() + 1; }
};
template <>
struct Dom<tiny::optional<tiny::optional<bool>>> : DomClass<tiny::optional<tiny::optional<bool>>, Dom<tiny::optional<tiny::optional<bool>>>>
{
  static constexpr bool guide = false;
  static constexpr bool cmpNull = false;
  static constexpr int N = 3;
  static T make(int i) { T t; if (i) { t.emplace(); } if (i == 2) { t->emplace(true); } return t; }
  static int id(T const & t) { return !t ? 1 : !*t ? 2 : **t ? 3 : -1; }
};

template <class T, T val>
struct SentType
{
  static constexpr T value = val;
};
struct SentDouble
{
  static constexpr double value = 1.0;
};

#if __cplusplus >= 202002L
struct NttpFlag
{
  int x;
  int y;
  friend constexpr bool operator==(NttpFlag const &, NttpFlag const &) noexcept = default;
};
struct LNttp : LBase<NttpFlag> { static M good(int v) { return M{v, v == 1 ? 9 : -1}; } };
#endif

// ------------------------------------------------------------------------------------------------
template <class S, class T>
bool runFlavour(char const * name, Options const & opt, bool & any)
{
  if (!opt.only.empty() && opt.only != name) {
    return true;
  }
  any = true;
  std::snprintf(gFlavour, sizeof gFlavour, "%s", name);
  static Engine<S, T> e;
  registerOps(e);
  return e.run(opt);
}
} // namespace vh
