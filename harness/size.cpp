// C06: sizes, alignment and is_compressed of a large table of instantiations, in the current configuration.
#include "common.hpp"
#include <array>
#include <complex>
#include <functional>
#include <string>
#include <tuple>
#include <vector>
using namespace vh;

#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
constexpr bool BITS = false;
#else
constexpr bool BITS = true;
#define VH_BITS 1
#endif
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
constexpr bool MEM = false;
#else
constexpr bool MEM = true;
#define VH_MEM 1
#endif

enum Kind
{
  K_BITS, // the payload has unused bits
  K_SENT, // sentinel for the payload
  K_MANIP, // custom flag manipulator for the payload / optional_inplace
  K_MEM, // flag in a member (sentinel or custom manipulator or unused bits)
  K_SEP // none of the above
};

template <class O, class P>
void chk(Kind k, char const * name)
{
  gCtx = name;
  bool const compressed = k == K_SENT || k == K_MANIP || (k == K_BITS && BITS) || (k == K_MEM && MEM);
  auto bad = [&](std::string const & m) { fail("SIZE", std::string("type=") + name, m); };
  using SO = std::optional<P>;
  std::string const sz = "sizeof=" + std::to_string(sizeof(O)) + " payload=" + std::to_string(sizeof(P)) + " std::optional=" + std::to_string(sizeof(SO));
  if (static_cast<bool>(O::is_compressed) != compressed) {
    bad(std::string("is_compressed is ") + (O::is_compressed ? "true" : "false") + ", " + sz);
  }
  if (compressed ? sizeof(O) != sizeof(P) : sizeof(O) > sizeof(SO)) {
    bad(std::string(compressed ? "promised to have the size of the payload: " : "larger than std::optional: ") + sz);
  }
  if (!compressed && sizeof(O) <= sizeof(P)) {
    bad("not compressed, but no room for the flag: " + sz);
  }
  if (alignof(O) % alignof(P) != 0 || (compressed && alignof(O) != alignof(P)) || alignof(O) > alignof(SO)) {
    bad("alignment " + std::to_string(alignof(O)) + ", payload " + std::to_string(alignof(P)));
  }
  if (!std::is_same_v<typename O::value_type, P>) {
    bad("value_type is not the payload type");
  }
  ++gC.states;
  gC.transitions += 5;
  // The payload's address in arrays and as a class member after a char.
  if constexpr (std::is_default_constructible_v<P> && !std::is_const_v<P>) {
    struct S
    {
      char c;
      O o;
    };
    auto one = [&](O & o, char const * where) {
      gC.transitions += 3;
      ++gC.executions;
      if (o.has_value()) {
        bad(std::string("default constructed one is not empty: ") + where);
      }
      // nothing is stored: addresses only (the value of the payload may be the sentinel)
    };
    auto arr = std::make_unique<std::array<O, 3>>();
    for (O & o : *arr) {
      one(o, "array element");
    }
    auto s = std::make_unique<S>();
    one(s->o, "class member");
    if (reinterpret_cast<char *>(&(*arr)[1]) - reinterpret_cast<char *>(&(*arr)[0]) != static_cast<std::ptrdiff_t>(sizeof(O))) {
      bad("array stride");
    }
  }
}
// Engaged: the payload must be aligned and within the object.
template <class O, class P, class... A>
void eng(char const * name, A const &... a)
{
  gCtx = name;
  struct S
  {
    char c;
    O o;
    char d;
  };
  auto s = std::make_unique<S>();
  s->o.emplace(a...);
  auto p = reinterpret_cast<std::uintptr_t>(std::addressof(*s->o));
  auto q = reinterpret_cast<std::uintptr_t>(std::addressof(s->o));
  gC.transitions += 1;
  ++gC.executions;
  if (p % alignof(P) != 0 || p < q || p + sizeof(P) > q + sizeof(O)) {
    fail("SIZE", std::string("type=") + name, "payload misaligned or outside of the optional");
  }
}

#define STR_(...) #__VA_ARGS__
#define BIT(...) chk<tiny::optional<__VA_ARGS__>, __VA_ARGS__>(K_BITS, STR_(tiny::optional<__VA_ARGS__>))
#define SEP(...) chk<tiny::optional<__VA_ARGS__>, __VA_ARGS__>(K_SEP, STR_(tiny::optional<__VA_ARGS__>))
#define SEN(P, ...) chk<tiny::optional<P, __VA_ARGS__>, P>(K_SENT, STR_(tiny::optional<P, __VA_ARGS__>))
#define AIP(P) chk<tiny::optional_aip<P>, P>(K_SENT, STR_(tiny::optional_aip<P>))
#define MAN(...) chk<tiny::optional<__VA_ARGS__>, __VA_ARGS__>(K_MANIP, STR_(tiny::optional<__VA_ARGS__>))
#define MEMB(P, ...) chk<tiny::optional<P, __VA_ARGS__>, P>(K_MEM, STR_(tiny::optional<P, __VA_ARGS__>))
#define CV(M, ...) M(__VA_ARGS__); M(__VA_ARGS__ const); M(__VA_ARGS__ volatile); M(__VA_ARGS__ const volatile)

enum class E8 : unsigned char { a, inv = 9 };
enum class E64 : long long { a, inv = -1 };
enum EPlain { pA, pInv };
enum class EM : int { a, inv = 5 };
template <>
struct tiny::optional_flag_manipulator<EM> : tiny::sentinel_flag_manipulator<EM, EM::inv>
{
};
struct Empty { };
struct Final final { int x; };
struct Poly { virtual ~Poly() = default; int x; };
struct TailPad { TailPad() { } double d; char c; };
struct Derived : TailPad { char e; };
struct Three { char c[3]; };
struct Odd { char c[17]; };
struct Big { long a[1000]; };
template <std::size_t A>
struct alignas(A) Al { char c; };
struct Manip { short a; unsigned char flag; long long b; };
struct Str { std::string s; int x; };
template <>
struct tiny::optional_flag_manipulator<Manip>
{
  static bool is_empty(Manip const & m) noexcept { return m.flag == 1; }
  static void init_empty_flag(Manip & m) noexcept { ::new (&m) Manip(); m.flag = 1; }
  static void invalidate_empty_flag(Manip & m) noexcept { m.flag = 0; }
};
struct InplaceManip
{
  static bool is_empty(Odd const & m) noexcept { return m.c[0] == 1; }
  static void init_empty_flag(Odd & m) noexcept { m.c[0] = 1; }
  static void invalidate_empty_flag(Odd & m) noexcept { m.c[0] = 0; }
};
struct HasAll
{
  char c;
  bool b;
  short s;
  float f;
  double d;
  void * p;
  int (*fp)(int);
  E8 e8;
  EM em;
  Manip man;
  unsigned long long ull;
  int const ci = 3;
  std::string str;
};
struct WithBase : Empty { double d; };
struct alignas(64) AlMem { int x; bool b; };
template <class T>
struct Tmpl { T t; char pad[5]; bool last; };
template <class T, T v>
struct Via { static constexpr T value = v; };

// A product of class layouts: type of the flag member x bytes before and after it x kind of class x way of naming the sentinel.
template <std::size_t K> struct Pre { unsigned char pre[K]; };
template <> struct Pre<0> { };
template <std::size_t N> struct Post { unsigned char post[N]; };
template <> struct Post<0> { };
template <class M, std::size_t K, std::size_t N, int Kd> struct Fam; // the member pointer must belong to the payload class itself
template <class M> struct Fam<M, 0, 0, 0> { M m; };
template <class M, std::size_t N> struct Fam<M, 0, N, 0> { M m; unsigned char post[N]; };
template <class M, std::size_t K> struct Fam<M, K, 0, 0> { unsigned char pre[K]; M m; };
template <class M, std::size_t K, std::size_t N> struct Fam<M, K, N, 0> { unsigned char pre[K]; M m; unsigned char post[N]; };
template <class M, std::size_t K, std::size_t N> struct Fam<M, K, N, 1> : Pre<K> { Fam() { } M m; ~Fam() { } };
template <class M, std::size_t K, std::size_t N> struct Fam<M, K, N, 2> : Empty, Pre<K> { Fam(int) { } Fam(Fam const &) = delete; M m; };
template <class M, std::size_t K, std::size_t N> struct Fam<M, K, N, 3> final : Post<N> { virtual void f() { } M m; Pre<K> pre; };
template <class M, std::size_t K, std::size_t N> struct alignas(16) Fam<M, K, N, 4> { M m; Post<N> post; M second; };

void row(char const * what, char const * mem, std::size_t k, std::size_t n, int kd, bool expect, bool is, std::size_t so, std::size_t sp, std::size_t ss, std::size_t ao, std::size_t ap, std::size_t as)
{
  ++gC.states;
  gC.transitions += 4;
  if (is == expect && (expect ? so == sp && ao == ap : so <= ss && so > sp) && ao % ap == 0 && ao <= as) return;
  fail("SIZE", std::string("type=") + what + " " + mem + " at " + std::to_string(k) + " tail " + std::to_string(n) + " kind " + std::to_string(kd),
       std::string(expect ? "promised compressed" : "uncompressed") + ": is_compressed=" + (is ? "true" : "false") + " sizeof=" + std::to_string(so) + " payload=" + std::to_string(sp) + " std::optional=" + std::to_string(ss) + " alignof=" + std::to_string(ao));
}
#define ROW(what, expect, O) row(what, mem, K, N, Kd, expect, O::is_compressed, sizeof(O), sizeof(P), sizeof(std::optional<P>), alignof(O), alignof(P), alignof(std::optional<P>))
// Own: the member's type has unused bits (1), a manipulator (2) or nothing (0); Sv: the type of a sentinel
template <class M, std::size_t K, std::size_t N, int Kd, int Own, class Sv>
void fam(char const * mem)
{
  using P = Fam<M, K, N, Kd>;
  using O0 = tiny::optional<P>;
  ROW("optional<P>", false, O0);
  using O1 = tiny::optional<P const>;
  ROW("optional<P const>", false, O1);
  if constexpr (Own == 2) {
    using O2 = tiny::optional<P, &P::m>;
    ROW("optional<P, member>", MEM, O2);
  }
#if defined(VH_BITS) || !defined(VH_MEM)
  if constexpr (Own == 1) {
    using O2 = tiny::optional<P, &P::m>;
    ROW("optional<P, member>", MEM, O2);
  }
#endif
  if constexpr (!std::is_void_v<Sv>) {
    using O3 = tiny::optional_sentinel_via_type<P, Sv, &P::m>;
    ROW("optional_sentinel_via_type<P, sentinel, member>", MEM, O3);
    if constexpr (!std::is_floating_point_v<std::remove_cv_t<M>>) {
      using O4 = tiny::optional<P, &P::m, Sv::value>;
      ROW("optional<P, member, sentinel>", MEM, O4);
    }
  }
  if constexpr (Kd == 0) {
    struct IM
    {
      static bool is_empty(P const &) noexcept { return true; }
      static void init_empty_flag(P &) noexcept { }
      static void invalidate_empty_flag(P &) noexcept { }
    };
    using O5 = tiny::optional_inplace<P, IM>;
    ROW("optional_inplace<P>", true, O5);
  }
}
template <class M, int Kd, int Own, class Sv>
void fams(char const * mem)
{
  fam<M, 0, 0, Kd, Own, Sv>(mem);
  fam<M, 0, 1, Kd, Own, Sv>(mem);
  fam<M, 1, 0, Kd, Own, Sv>(mem);
  fam<M, 3, 5, Kd, Own, Sv>(mem);
  fam<M, 8, 17, Kd, Own, Sv>(mem);
}
template <class M, int Own, class Sv>
void famk(char const * mem)
{
  fams<M, 0, Own, Sv>(mem);
  fams<M, 1, Own, Sv>(mem);
  fams<M, 2, Own, Sv>(mem);
  fams<M, 3, Own, Sv>(mem);
  fams<M, 4, Own, Sv>(mem);
}
struct ViaD { static constexpr double value = 1.5; };
struct ViaF { static constexpr float value = 1.5f; };
struct ViaP { static constexpr int * value = nullptr; };

int main(int argc, char ** argv)
{
  setup(argc, argv);
#ifdef VH_PRODUCT
  if (begin("product of class layouts")) {
    famk<bool, 1, Via<bool, true>>("bool"); famk<bool volatile, 1, Via<bool, false>>("bool volatile");
    famk<float, 1, ViaF>("float"); famk<double, 1, ViaD>("double"); famk<int *, 1, ViaP>("int*"); famk<int (*)(int), 1, void>("function pointer");
    famk<char, 0, Via<int, 5>>("char"); famk<unsigned char, 0, Via<int, 255>>("unsigned char"); famk<short, 0, Via<int, -1>>("short");
    famk<int, 0, Via<int, 0>>("int"); famk<unsigned, 0, Via<long, 7>>("unsigned"); famk<long long, 0, Via<int, -1>>("long long");
    famk<E8, 0, Via<E8, E8::inv>>("enum"); famk<EM, 2, Via<EM, EM::a>>("enum with manipulator"); famk<Manip, 2, void>("class with manipulator");
    gC.executions = gC.states;
    stat();
  }
  return finish();
#endif
  if (!begin("size table")) {
    return finish();
  }
  CV(BIT, bool); CV(BIT, float); CV(BIT, double);
  CV(BIT, int *); CV(BIT, void *); CV(BIT, char const *); CV(BIT, std::string *); CV(BIT, Big const *); CV(BIT, int **);
  using F1 = int (*)(int);
  using F2 = void (*)(std::string const &, ...);
  using F3 = void (*)() noexcept;
  CV(BIT, F1); CV(BIT, F2); CV(BIT, F3);

  CV(SEP, char); CV(SEP, signed char); CV(SEP, unsigned char); CV(SEP, short); CV(SEP, unsigned short); CV(SEP, int); CV(SEP, unsigned);
  CV(SEP, long); CV(SEP, unsigned long); CV(SEP, long long); CV(SEP, unsigned long long); CV(SEP, wchar_t); CV(SEP, char16_t); CV(SEP, char32_t);
  CV(SEP, long double);
  SEP(E8); SEP(E64); SEP(EPlain); SEP(Empty); SEP(Final); SEP(Poly); SEP(TailPad); SEP(Derived); SEP(Three); SEP(Odd); SEP(Big);
  SEP(Al<1>); SEP(Al<2>); SEP(Al<4>); SEP(Al<8>); SEP(Al<16>); SEP(Al<32>); SEP(Al<64>); SEP(Al<128>);
  SEP(std::string); SEP(std::vector<int>); SEP(std::vector<bool>); SEP(std::unique_ptr<int>); SEP(std::shared_ptr<int>); SEP(std::array<char, 7>); SEP(std::function<void()>);
  SEP(std::complex<double>); SEP(std::nullptr_t); SEP(std::byte);
  SEP(std::pair<int, char>); SEP(std::tuple<>); SEP(std::optional<int>); SEP(std::optional<bool>);
  SEP(int Final::*); SEP(void (Final::*)()); SEP(tiny::optional<bool>); SEP(tiny::optional<int>); SEP(tiny::optional<double>); SEP(tiny::optional<tiny::optional<bool>>);
  SEP(HasAll); SEP(WithBase); SEP(AlMem); SEP(Tmpl<char>); SEP(Str);
  SEP(Empty const); SEP(std::string const); SEP(HasAll const); SEP(Big const);

  SEN(int, -1); SEN(int const, -1); SEN(int volatile, -1); SEN(int const volatile, -1); SEN(unsigned, 5); SEN(char, 'x'); SEN(signed char, -128); SEN(unsigned char, 255); SEN(short, 0); SEN(unsigned short, 65535u); SEN(long, -1L); SEN(unsigned long, 0);
  SEN(long long, -1); SEN(unsigned long long, 0xffffffffffffffffull); SEN(wchar_t, 0); SEN(char16_t, 0xffff); SEN(char32_t, 0); SEN(bool, true); SEN(int *, nullptr); SEN(F1, nullptr);
  SEN(E8, E8::inv); SEN(E64, E64::inv); SEN(EPlain, pInv); SEN(EM, EM::a); SEN(E8 const, E8::inv); SEN(bool const, false); SEN(std::nullptr_t, nullptr);
  AIP(short); AIP(unsigned short); AIP(int); AIP(unsigned); AIP(long); AIP(unsigned long); AIP(long long); AIP(unsigned long long); AIP(int const); AIP(unsigned long const); AIP(long long volatile);
  chk<tiny::optional_aip<EM>, EM>(K_MANIP, "tiny::optional_aip<EM>");
  chk<tiny::optional_aip<Manip>, Manip>(K_MANIP, "tiny::optional_aip<Manip>");
  chk<tiny::optional_aip<char, 'c'>, char>(K_SENT, "tiny::optional_aip<char, 'c'>");
  chk<tiny::optional_aip<signed char, -1>, signed char>(K_SENT, "tiny::optional_aip<signed char, -1>");
  chk<tiny::optional_aip<double const *, nullptr>, double const *>(K_SENT, "tiny::optional_aip<double const *, nullptr>");
#ifdef VH_BITS
  chk<tiny::optional_aip<bool>, bool>(K_BITS, "tiny::optional_aip<bool>");
  chk<tiny::optional_aip<float>, float>(K_BITS, "tiny::optional_aip<float>");
  chk<tiny::optional_aip<double const>, double const>(K_BITS, "tiny::optional_aip<double const>");
  chk<tiny::optional_aip<void *>, void *>(K_BITS, "tiny::optional_aip<void *>");
  chk<tiny::optional_aip<F1>, F1>(K_BITS, "tiny::optional_aip<function pointer>");
#endif
  MAN(EM); MAN(Manip);
  chk<tiny::optional_inplace<Odd, InplaceManip>, Odd>(K_MANIP, "tiny::optional_inplace<Odd, InplaceManip>");
  chk<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, 3>>, int>(K_MANIP, "tiny::optional_inplace<int, sentinel_flag_manipulator>");
  chk<tiny::optional_sentinel_via_type<unsigned, Via<int, 3>>, unsigned>(K_SENT, "tiny::optional_sentinel_via_type<unsigned, 3>");
  chk<tiny::optional_sentinel_via_type<int const, Via<int, 3>>, int const>(K_SENT, "tiny::optional_sentinel_via_type<int const, 3>");
  chk<tiny::optional_sentinel_via_type<HasAll, Via<int, 3>, &HasAll::c>, HasAll>(K_MEM, "tiny::optional_sentinel_via_type<HasAll, 3, &HasAll::c>");

  MEMB(HasAll, &HasAll::c, 'x'); MEMB(HasAll, &HasAll::s, -1); MEMB(HasAll, &HasAll::e8, E8::inv); MEMB(HasAll, &HasAll::em, EM::a); MEMB(HasAll, &HasAll::ull, 0); MEMB(HasAll, &HasAll::p, nullptr);
  MEMB(HasAll, &HasAll::b, true); MEMB(HasAll, &HasAll::ci, -1); MEMB(HasAll, &HasAll::em); MEMB(HasAll, &HasAll::man);
#if defined(VH_BITS) || !defined(VH_MEM)
  MEMB(HasAll, &HasAll::b); MEMB(HasAll, &HasAll::f); MEMB(HasAll, &HasAll::d); MEMB(HasAll, &HasAll::p); MEMB(HasAll, &HasAll::fp);
  MEMB(WithBase, &WithBase::d); MEMB(AlMem, &AlMem::b); MEMB(Tmpl<char>, &Tmpl<char>::last); MEMB(Tmpl<double>, &Tmpl<double>::t); MEMB(Tmpl<int *>, &Tmpl<int *>::t); MEMB(Tmpl<Big>, &Tmpl<Big>::last);
#endif
  MEMB(AlMem, &AlMem::x, -1); MEMB(Tmpl<char>, &Tmpl<char>::t, 0); MEMB(Tmpl<Big>, &Tmpl<Big>::last, true); MEMB(Final, &Final::x, 0); MEMB(Poly, &Poly::x, 0); MEMB(TailPad, &TailPad::c, 1); MEMB(Derived, &Derived::e, 1);

  eng<tiny::optional<Al<1>>, Al<1>>("Al<1>"); eng<tiny::optional<Al<2>>, Al<2>>("Al<2>"); eng<tiny::optional<Al<8>>, Al<8>>("Al<8>"); eng<tiny::optional<Al<16>>, Al<16>>("Al<16>");
  eng<tiny::optional<Al<32>>, Al<32>>("Al<32>"); eng<tiny::optional<Al<64>>, Al<64>>("Al<64>"); eng<tiny::optional<Al<128>>, Al<128>>("Al<128>");
  eng<tiny::optional<long double>, long double>("long double", 1.0L); eng<tiny::optional<double>, double>("double", 1.0); eng<tiny::optional<long long, -1>, long long>("long long", 1);
  eng<tiny::optional<AlMem, &AlMem::x, -1>, AlMem>("AlMem"); eng<tiny::optional<HasAll, &HasAll::c, 'x'>, HasAll>("HasAll"); eng<tiny::optional<Str>, Str>("Str"); eng<tiny::optional<Big>, Big>("Big");
  stat();
  sample("sizeof, alignof, is_compressed, value_type of tiny::optional<double const volatile>, tiny::optional<HasAll, &HasAll::man>, tiny::optional_aip<unsigned long const>, ...");
  return finish();
}
