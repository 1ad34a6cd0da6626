// C09: comparisons. Payload operators are driven by an enumerated truth table and record their calls.
#include "common.hpp"
#include <string>
#include <string_view>
#if __cplusplus >= 202002L
  #include <compare>
#endif
using namespace vh;

struct CmpBoom { };
struct Rec
{
  int calls = 0;
  int op = -1;
  void const * l = nullptr;
  void const * r = nullptr;
  unsigned table = 0; // bit k: result of operator k
  bool boom = false;
};
static Rec R;
constexpr bool CXX20 = __cplusplus >= 202002L;

struct BoolLike
{
  bool b;
  operator bool() const { return b; }
};

inline bool doOp(int k, void const * l, void const * r)
{
  ++R.calls;
  R.op = k;
  R.l = l;
  R.r = r;
  if (R.boom) {
    throw CmpBoom{};
  }
  return (R.table >> k) & 1;
}

template <int Tag>
struct Pl
{
  int id;
  int m;
  explicit Pl(int i) : id(i), m(i) { }
};
#define OP1(RET, K, SYM, A, B)                                                                                         \
  inline RET operator SYM(A const & l, B const & r) { return RET{doOp(K, std::addressof(l), std::addressof(r))}; }
#define OPS6(RET, A, B) OP1(RET, 0, ==, A, B) OP1(RET, 1, !=, A, B) OP1(RET, 2, <, A, B) OP1(RET, 3, <=, A, B) OP1(RET, 4, >, A, B) OP1(RET, 5, >=, A, B)
using PA = Pl<0>;
using PB = Pl<1>;
using PC = Pl<2>; // results are BoolLike
OPS6(bool, PA, PA)
OPS6(bool, PA, PB)
OPS6(bool, PB, PA)
OPS6(bool, PB, PB)
OPS6(BoolLike, PC, PC)

static char const * opNames[] = {"==", "!=", "<", "<=", ">", ">="};

struct FlagMan
{
  template <class P> static bool is_empty(P const & p) noexcept { int x; std::memcpy(&x, reinterpret_cast<char const *>(std::addressof(p)) + 4, 4); return x == -9; }
  template <class P> static void init_empty_flag(P & p) noexcept { int const x = -9; std::memcpy(reinterpret_cast<char *>(std::addressof(p)) + 4, &x, 4); }
  template <class P> static void invalidate_empty_flag(P &) noexcept { }
};
struct FlagManLL
{
  static bool is_empty(long long const & p) noexcept { return p == -987654321987ll; }
  static void init_empty_flag(long long & p) noexcept { p = -987654321987ll; }
  static void invalidate_empty_flag(long long &) noexcept { }
};
struct SentNine { static constexpr int value = -9; };

// Operand kinds. get(slot, engaged) creates; addr(x) is the address of the value; HAS(x).
template <class O_>
struct KOpt
{
  using O = O_;
  using P = typename O::value_type;
  O o;
  explicit KOpt(bool e)
  {
    if (e) o.emplace(P(5));
  }
  O const & ref() const { return o; }
  bool has() const { return o.has_value(); }
  void const * addr() const { return std::addressof(*o); }
  static constexpr bool value = false, null = false;
};
template <class P_>
struct KVal
{
  using P = P_;
  P p{5};
  explicit KVal(bool) { }
  P const & ref() const { return p; }
  bool has() const { return true; }
  void const * addr() const { return std::addressof(p); }
  static constexpr bool value = true, null = false;
};
struct KNull
{
  explicit KNull(bool) { }
  std::nullopt_t ref() const { return std::nullopt; }
  bool has() const { return false; }
  void const * addr() const { return nullptr; }
  static constexpr bool value = false, null = true;
};

template <int K, class A, class B>
bool apply(A const & a, B const & b)
{
  if constexpr (K == 0) return a == b;
  else if constexpr (K == 1) return a != b;
  else if constexpr (K == 2) return a < b;
  else if constexpr (K == 3) return a <= b;
  else if constexpr (K == 4) return a > b;
  else return a >= b;
}
template <int K>
bool expectEmpty(bool l, bool r) // at least one side is empty
{
  int const c = int(l) - int(r);
  return K == 0 ? c == 0 : K == 1 ? c != 0 : K == 2 ? c < 0 : K == 3 ? c <= 0 : K == 4 ? c > 0 : c >= 0;
}

template <int K, class L, class Rr>
void one(std::string const & nm, bool le, bool re)
{
  L l(le);
  Rr r(re);
  auto p = [&](unsigned t, bool boom) {
    return "cmp=" + nm + " " + opNames[K] + " lhs " + (l.has() ? "engaged" : "empty") + " rhs " + (r.has() ? "engaged" : "empty") + " table " + std::to_string(t) + (boom ? " throwing" : "");
  };
  for (unsigned t = 0; t < 64; ++t) {
    for (int boom = 0; boom <= 1; ++boom) {
      R = Rec{};
      R.table = t;
      R.boom = boom != 0;
      gCtx = "cmp=" + nm;
      ++gC.transitions;
      bool res = false;
      int ex = 0;
      try {
        res = apply<K>(l.ref(), r.ref());
      }
      catch (CmpBoom const &) {
        ex = 1;
      }
      catch (...) {
        ex = 2;
      }
      bool const both = l.has() && r.has();
      if (both) {
        if (ex != boom) fail("CMP", p(t, boom), "exception of the payload's operator did not propagate");
        else if (R.calls != 1 || R.op != K) fail("CMP", p(t, boom), "payload operator calls: " + std::to_string(R.calls) + ", last " + (R.op < 0 ? "none" : opNames[R.op]));
        else if (R.l != l.addr() || R.r != r.addr()) fail("CMP", p(t, boom), "payload operator called with wrong operands");
        else if (!boom && res != (((t >> K) & 1) != 0)) fail("CMP", p(t, boom), "result differs from the payload's operator");
      }
      else {
        if (ex) fail("CMP", p(t, boom), "exception although a side is empty");
        else if (R.calls) fail("CMP", p(t, boom), "payload operator called although a side is empty");
        else if (res != expectEmpty<K>(l.has(), r.has())) fail("CMP", p(t, boom), std::string("result is ") + (res ? "true" : "false"));
      }
      if (l.has() != (le || L::value) && !L::null) fail("CMP", p(t, boom), "operand changed");
    }
  }
  ++gC.executions;
}
template <class L, class Rr>
void pair(char const * ln, char const * rn)
{
  std::string const nm = std::string(ln) + " ? " + rn;
  for (int e = 0; e < 4; ++e) {
    bool const le = e & 1, re = e & 2;
    if ((L::value || L::null) && !le) continue;
    if ((Rr::value || Rr::null) && !re) continue;
    ++gC.states;
    one<0, L, Rr>(nm, le, re);
    one<1, L, Rr>(nm, le, re);
    one<2, L, Rr>(nm, le, re);
    one<3, L, Rr>(nm, le, re);
    one<4, L, Rr>(nm, le, re);
    one<5, L, Rr>(nm, le, re);
  }
}
template <class P>
struct Kinds
{
  using Sep = KOpt<tiny::optional<P>>;
  using Mem = KOpt<tiny::optional<P, &P::m, -9>>;
  using Inp = KOpt<tiny::optional_inplace<P, FlagMan>>;
  using Via = KOpt<tiny::optional_sentinel_via_type<P, SentNine, &P::m>>;
  using Std = KOpt<std::optional<P>>;
  using Val = KVal<P>;
};
template <class L>
void rowTiny(char const * ln)
{
  // A tiny optional of PA against everything of PA and PB.
  pair<L, typename Kinds<PA>::Sep>(ln, "tiny<A>");
  pair<L, typename Kinds<PA>::Mem>(ln, "tiny<A,member>");
  pair<L, typename Kinds<PA>::Inp>(ln, "inplace<A>");
  pair<L, typename Kinds<PB>::Sep>(ln, "tiny<B>");
  pair<L, typename Kinds<PB>::Mem>(ln, "tiny<B,member>");
  pair<L, typename Kinds<PB>::Via>(ln, "via_type<B>");
}
template <class L>
void rowOther(char const * ln)
{
  pair<L, typename Kinds<PA>::Std>(ln, "std<A>");
  pair<L, typename Kinds<PB>::Std>(ln, "std<B>");
  pair<L, KVal<PA>>(ln, "A");
  pair<L, KVal<PB>>(ln, "B");
  pair<L, KNull>(ln, "nullopt");
  pair<typename Kinds<PA>::Std, L>("std<A>", ln);
  pair<typename Kinds<PB>::Std, L>("std<B>", ln);
  pair<KVal<PA>, L>("A", ln);
  pair<KVal<PB>, L>("B", ln);
  pair<KNull, L>("nullopt", ln);
}

// ---------------------------------------------------------------------------------------------------------------------
// Lockstep with std::optional for library payloads: T1 against T2.
template <class T>
struct Vs;
template <class T>
struct VsInt
{
  static constexpr int N = 5;
  static T at(int i) { T const v[] = {T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(7)}; return v[i]; }
};
template <> struct Vs<int> : VsInt<int> { };
template <> struct Vs<unsigned> : VsInt<unsigned> { };
template <> struct Vs<long long> : VsInt<long long> { };
template <> struct Vs<unsigned char> : VsInt<unsigned char> { };
template <class T>
struct VsF
{
  static constexpr int N = 6;
  static T at(int i) { T const v[] = {T(0), T(-0.0), T(1), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), T(-7.5)}; return v[i]; }
};
template <> struct Vs<double> : VsF<double> { };
template <> struct Vs<float> : VsF<float> { };
template <> struct Vs<bool> { static constexpr int N = 2; static bool at(int i) { return i; } };
static int gInts[4];
template <> struct Vs<int *> { static constexpr int N = 4; static int * at(int i) { return i ? gInts + i : nullptr; } };
template <> struct Vs<std::string> { static constexpr int N = 4; static std::string at(int i) { char const * v[] = {"", "a", "b", "ab"}; return v[i]; } };
template <> struct Vs<std::string_view> { static constexpr int N = 4; static std::string_view at(int i) { char const * v[] = {"", "a", "b", "ab"}; return v[i]; } };

template <class A, class B>
unsigned allOps(A const & a, B const & b)
{
  unsigned r = 0;
  r |= unsigned(a == b) << 0;
  r |= unsigned(a != b) << 1;
  r |= unsigned(a < b) << 2;
  r |= unsigned(a <= b) << 3;
  r |= unsigned(a > b) << 4;
  r |= unsigned(a >= b) << 5;
#if __cplusplus >= 202002L
  if constexpr (requires { a <=> b; }) {
    auto const o = a <=> b;
    r |= (o < 0 ? 1u : o == 0 ? 2u : o > 0 ? 3u : 4u) << 6;
    using T = std::remove_const_t<decltype(o)>;
    r |= (std::is_same_v<T, std::strong_ordering> ? 1u : std::is_same_v<T, std::weak_ordering> ? 2u : 3u) << 10;
  }
#endif
  return r;
}
template <class O1, class T1, class O2, class T2>
void lock(char const * nm)
{
  for (int i = -1; i < Vs<T1>::N; ++i)
    for (int j = -1; j < Vs<T2>::N; ++j) {
      O1 a;
      O2 b;
      std::optional<T1> sa;
      std::optional<T2> sb;
      if (i >= 0) { a.emplace(Vs<T1>::at(i)); sa.emplace(Vs<T1>::at(i)); }
      if (j >= 0) { b.emplace(Vs<T2>::at(j)); sb.emplace(Vs<T2>::at(j)); }
      std::string const p = std::string("lock=") + nm + " values " + std::to_string(i) + "," + std::to_string(j);
      gCtx = p;
      auto eq = [&](char const * what, unsigned x, unsigned y) {
        ++gC.executions;
        gC.transitions += CXX20 ? 7 : 6;
        if (x != y) fail("CMP", p, std::string(what) + ": results 0x" + std::to_string(x) + " but std::optional 0x" + std::to_string(y));
      };
      ++gC.states;
      eq("tiny?tiny", allOps(a, b), allOps(sa, sb));
      eq("tiny?std", allOps(a, sb), allOps(sa, sb));
      eq("std?tiny", allOps(sa, b), allOps(sa, sb));
      if (j >= 0) eq("tiny?value", allOps(a, *sb), allOps(sa, *sb));
      if (i >= 0) eq("value?tiny", allOps(*sa, b), allOps(*sa, sb));
      eq("tiny?nullopt", allOps(a, std::nullopt), allOps(sa, std::nullopt));
      eq("nullopt?tiny", allOps(std::nullopt, b), allOps(std::nullopt, sb));
    }
}

#if __cplusplus >= 202002L
// Payloads with operator<=> and operator== only.
template <class Ord>
struct Spc
{
  int rank; // 9: unordered (partial ordering only)
  int tag;
  friend bool operator==(Spc const & a, Spc const & b) { ++R.calls; return a.rank == b.rank && a.rank != 9; }
  friend Ord operator<=>(Spc const & a, Spc const & b)
  {
    ++R.calls;
    if constexpr (std::is_same_v<Ord, std::partial_ordering>) {
      if (a.rank == 9 || b.rank == 9) return std::partial_ordering::unordered;
    }
    if constexpr (std::is_same_v<Ord, std::strong_ordering>) return a.rank <=> b.rank;
    else return a.rank < b.rank ? Ord::less : a.rank > b.rank ? Ord::greater : Ord::equivalent;
  }
};
template <class O> struct Vs<Spc<O>> { static constexpr int N = 3; static Spc<O> at(int i) { return i == 2 ? Spc<O>{9, 1} : Spc<O>{i, i}; } };
template <class Ord>
void spaceship(char const * n)
{
  using P = Spc<Ord>;
  lock<tiny::optional<P>, P, tiny::optional<P>, P>((std::string(n) + " sep/sep").c_str());
  lock<tiny::optional<P, &P::tag, -1>, P, tiny::optional<P>, P>((std::string(n) + " mem/sep").c_str());
  lock<tiny::optional<P>, P, tiny::optional<P, &P::tag, -1>, P>((std::string(n) + " sep/mem").c_str());
  lock<tiny::optional_inplace<P, FlagMan>, P, tiny::optional<P>, P>((std::string(n) + " inplace/sep").c_str());
  lock<tiny::optional<P>, P, tiny::optional_sentinel_via_type<P, SentNine, &P::tag>, P>((std::string(n) + " sep/via").c_str());
  lock<tiny::optional_sentinel_via_type<P, SentNine, &P::tag>, P, tiny::optional_inplace<P, FlagMan>, P>((std::string(n) + " via/inplace").c_str());
  lock<tiny::optional<P, &P::tag, -1>, P, tiny::optional<P, &P::tag, -2>, P>((std::string(n) + " mem/mem").c_str());
}
#endif

int main(int argc, char ** argv)
{
  setup(argc, argv);
#if VH_PART == 0
  if (begin("truth tables: tiny<A>")) { rowTiny<Kinds<PA>::Sep>("tiny<A>"); stat(); sample("tiny<A> engaged < tiny<B,member> engaged, operator table 0b010110, payload operator throwing"); }
#elif VH_PART == 1
  if (begin("truth tables: tiny<A,member>")) { rowTiny<Kinds<PA>::Mem>("tiny<A,member>"); stat(); }
#elif VH_PART == 2
  if (begin("truth tables: inplace<A>")) { rowTiny<Kinds<PA>::Inp>("inplace<A>"); rowTiny<Kinds<PA>::Via>("via_type<A>"); stat(); }
#elif VH_PART == 3
  if (begin("truth tables: tiny<A> with others")) { rowOther<Kinds<PA>::Sep>("tiny<A>"); stat(); }
#elif VH_PART == 4
  if (begin("truth tables: tiny<A,member> with others")) { rowOther<Kinds<PA>::Mem>("tiny<A,member>"); stat(); }
#elif VH_PART == 5
  if (begin("truth tables: inplace<A>, via_type<A> with others")) { rowOther<Kinds<PA>::Inp>("inplace<A>"); rowOther<Kinds<PA>::Via>("via_type<A>"); stat(); }
#elif VH_PART == 6
  if (begin("truth tables: operators returning a class")) {
    pair<Kinds<PC>::Sep, Kinds<PC>::Sep>("tiny<C>", "tiny<C>");
    pair<Kinds<PC>::Sep, Kinds<PC>::Mem>("tiny<C>", "tiny<C,member>");
    pair<Kinds<PC>::Sep, Kinds<PC>::Val>("tiny<C>", "C");
    pair<Kinds<PC>::Val, Kinds<PC>::Sep>("C", "tiny<C>");
    pair<Kinds<PC>::Sep, Kinds<PC>::Std>("tiny<C>", "std<C>");
    pair<Kinds<PC>::Std, Kinds<PC>::Mem>("std<C>", "tiny<C,member>");
    stat();
  }
#elif VH_PART == 7
  if (begin("lockstep: arithmetic types")) {
    using AI = tiny::optional<int, -12345>;
    lock<AI, int, AI, int>("int/int");
    lock<AI, int, tiny::optional<long long>, long long>("int/long long");
    lock<tiny::optional<unsigned>, unsigned, AI, int>("unsigned/int");
    lock<tiny::optional<double>, double, tiny::optional<double>, double>("double/double");
    lock<tiny::optional<double>, double, AI, int>("double/int");
    lock<tiny::optional_sentinel_via_type<int, SentNine>, int, tiny::optional_sentinel_via_type<long long, SentNine>, long long>("via int/via long long");
    lock<tiny::optional_inplace<long long, FlagManLL>, long long, tiny::optional_sentinel_via_type<int, SentNine>, int>("inplace long long/via int");
    lock<tiny::optional_sentinel_via_type<int, SentNine>, int, tiny::optional_inplace<long long, FlagManLL>, long long>("via int/inplace long long");
    lock<tiny::optional_aip<double>, double, tiny::optional_aip<float>, float>("aip double/aip float");
    lock<tiny::optional_aip<float>, float, tiny::optional_sentinel_via_type<int, SentNine>, int>("aip float/via int");
    lock<tiny::optional<float>, float, tiny::optional<double>, double>("float/double");
    stat();
    sample("optional<double>(NaN) <=> optional<double>(1.0), optional<int,-12345>() <= optional<long long>(max)");
  }
#elif VH_PART == 8
  if (begin("lockstep: other types")) {
    lock<tiny::optional<bool>, bool, tiny::optional<bool>, bool>("bool/bool");
    lock<tiny::optional<int *>, int *, tiny::optional_aip<int *>, int *>("int*/int*");
    lock<tiny::optional<unsigned char, 99>, unsigned char, tiny::optional<int, 0x5eed5>, int>("uchar/int");
    lock<tiny::optional<std::string>, std::string, tiny::optional<std::string>, std::string>("string/string");
    lock<tiny::optional<std::string>, std::string, tiny::optional<std::string_view>, std::string_view>("string/string_view");
    stat();
  }
#elif VH_PART == 9
  #if __cplusplus >= 202002L
  if (begin("three-way comparison")) {
    spaceship<std::strong_ordering>("strong");
    spaceship<std::weak_ordering>("weak");
    spaceship<std::partial_ordering>("partial");
    stat();
    sample("partial ordering: tiny(unordered) <=> std::optional(rank 1)");
  }
  #else
  if (begin("three-way comparison")) stat();
  #endif
#endif
  return finish();
}
