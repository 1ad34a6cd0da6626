// C11: std::hash. Every history of optionals up to a depth, every history of unordered containers up to a depth, and the
// matrix of enabled/disabled hashes.
#include "common.hpp"
#include <set>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>
using namespace vh;

struct HashBoom { };
static bool gBoom = false;
struct Ded // hash is user defined and ignores one member
{
  int a, irrelevant;
  double d = 0.5;
  explicit Ded(int i) : a(i), irrelevant(i * 7) { }
  friend bool operator==(Ded const & x, Ded const & y) { return x.a == y.a; }
};
struct Zero // hash of a value is 0, like libstdc++'s hash of false
{
  int a;
  explicit Zero(int i) : a(i) { }
  friend bool operator==(Zero const & x, Zero const & y) { return x.a == y.a; }
};
struct NoHash { int a; explicit NoHash(int i) : a(i) { } };
struct OffHash { int a; explicit OffHash(int i) : a(i) { } };
struct Ovl // has an overloaded operator& and conversions that must not be used
{
  int a;
  explicit Ovl(int i) : a(i) { }
  void operator&() const = delete;
  operator bool() const { return false; }
  friend bool operator==(Ovl const & x, Ovl const & y) { return x.a == y.a; }
};
enum class En : int { a = 1, b = 2, c = 3 };
namespace std
{
template <> struct hash<Ded> { size_t operator()(Ded const & d) const { if (gBoom) throw HashBoom{}; return static_cast<size_t>(d.a) * 1000003u + 17; } };
template <> struct hash<Zero> { size_t operator()(Zero const &) const { return 0; } };
template <> struct hash<Ovl> { size_t operator()(Ovl const & d) const { return static_cast<size_t>(d.a) + 5; } };
template <> struct hash<OffHash> { hash() = delete; hash(hash const &) = delete; hash & operator=(hash const &) = delete; };
}
struct Man
{
  static bool is_empty(Ded const & p) noexcept { return p.irrelevant == -1; }
  static void init_empty_flag(Ded & p) noexcept { int const x = -1; std::memcpy(reinterpret_cast<char *>(&p) + 4, &x, 4); }
  static void invalidate_empty_flag(Ded &) noexcept { }
};
struct SV { static constexpr int value = -5; };
struct SVE { static constexpr En value = En::c; };

template <class T> struct Vals;
template <class T> struct Num { static T at(int i) { return static_cast<T>(i + 1); } static constexpr int N = 3; };
template <> struct Vals<int> : Num<int> { };
template <> struct Vals<unsigned> : Num<unsigned> { };
template <> struct Vals<long long> { static constexpr int N = 3; static long long at(int i) { return i == 0 ? 0 : i == 1 ? -1 : 1ll << 40; } };
template <> struct Vals<unsigned char> : Num<unsigned char> { };
template <> struct Vals<double> { static constexpr int N = 6; static double at(int i) { double const v[] = {0.0, -0.0, 1.5, 1e300, -1.0 / 0.0, -std::numeric_limits<double>::quiet_NaN()}; return v[i]; } };
template <> struct Vals<float> { static constexpr int N = 5; static float at(int i) { float const v[] = {0.0f, -0.0f, 1.5f, -1e30f, std::numeric_limits<float>::quiet_NaN()}; return v[i]; } };
template <> struct Vals<short> : Num<short> { };
template <> struct Vals<char16_t> : Num<char16_t> { };
template <> struct Vals<long double> { static constexpr int N = 3; static long double at(int i) { long double const v[] = {0.0L, -0.0L, 1.5L}; return v[i]; } };
template <> struct Vals<bool> { static constexpr int N = 2; static bool at(int i) { return i; } };
static int gI[3];
template <> struct Vals<int *> { static constexpr int N = 3; static int * at(int i) { return i ? gI + i : nullptr; } };
template <> struct Vals<En> { static constexpr int N = 2; static En at(int i) { return i ? En::a : En::b; } };
template <> struct Vals<Ded> { static constexpr int N = 3; static Ded at(int i) { return Ded(i); } };
template <> struct Vals<Zero> { static constexpr int N = 2; static Zero at(int i) { return Zero(i); } };
template <> struct Vals<Ovl> { static constexpr int N = 2; static Ovl at(int i) { return Ovl(i); } };
template <> struct Vals<std::string> { static constexpr int N = 3; static std::string at(int i) { return i == 0 ? "" : i == 1 ? "a" : "a long string that is allocated on the heap"; } };
template <> struct Vals<std::string_view> { static constexpr int N = 3; static std::string_view at(int i) { return i == 0 ? "" : i == 1 ? "a" : "b"; } };

template <class O>
void histories(char const * n, int depth)
{
  using T = std::remove_const_t<typename O::value_type>;
  constexpr bool asg = std::is_copy_assignable_v<typename O::value_type>;
  using V = Vals<T>;
  constexpr int N = V::N;
  // ops: 0 reset, 1 swap with an empty one, 2 move away, 3.. assign v, 3+N.. emplace v, 3+2N.. swap with engaged v, then assign from a copy of itself
  constexpr int OPS = 4 + 3 * N;
  std::hash<O> const h{};
  std::hash<T> const hp{};
  std::size_t const e0 = h(O());
  std::vector<int> seq;
  std::vector<std::size_t> hv;
  for (int i = 0; i < N; ++i) hv.push_back(hp(V::at(i)));
  auto text = [&] {
    std::string s = std::string("hash=") + n + " ops";
    for (int x : seq) s += " " + std::to_string(x);
    return s;
  };
  auto runSeq = [&](int fill) {
    ++gC.executions;
    alignas(O) unsigned char mem[sizeof(O)];
    std::memset(mem, fill, sizeof mem);
    opaque(mem);
    O & o = *::new (static_cast<void *>(mem)) O();
    int cur = -1;
    auto look = [&] {
      std::size_t const x = h(o);
      ++gC.transitions;
      if (h(o) != x) fail("HASH", text(), "the hash is not stable");
      if (o.has_value() != (cur >= 0)) fail("HASH", text(), "wrong emptiness");
      else if (cur < 0 ? x != e0 : x != hv[static_cast<std::size_t>(cur)]) fail("HASH", text(), cur < 0 ? "hash of an empty optional differs from that of another empty one" : "hash differs from the payload's");
      O c(o);
      if (h(c) != x) fail("HASH", text(), "hash of a copy differs");
    };
    look();
    for (int op : seq) {
      if (op == 0) { o.reset(); cur = -1; }
      else if (op == 1) { if constexpr (asg) { O e; o.swap(e); cur = -1; } else { o.reset(); cur = -1; } }
      else if (op == 2) { O m(std::move(o)); o.reset(); cur = -1; }
      else if (op < 3 + N) { cur = op - 3; if constexpr (asg) o = V::at(cur); else o.emplace(V::at(cur)); }
      else if (op < 3 + 2 * N) { cur = op - 3 - N; o.emplace(V::at(cur)); }
      else if (op < 3 + 3 * N) { cur = op - 3 - 2 * N; if constexpr (asg) { O t(V::at(cur)); o.swap(t); } else o.emplace(V::at(cur)); }
      else { if constexpr (asg) { O c(o); o = c; } }
      opaque(mem);
      look();
    }
    o.~O();
  };
  std::function<void(int)> rec = [&](int d) {
    gCtx = text();
    if (static_cast<int>(seq.size()) == d) {
      runSeq(0x00);
      runSeq(0xFE);
      return;
    }
    for (int op = 0; op < OPS; ++op) {
      seq.push_back(op);
      rec(d);
      seq.pop_back();
    }
  };
  rec(depth);
  // Equality implies equal hashes for all pairs.
  for (int i = -1; i < N; ++i)
    for (int j = -1; j < N; ++j) {
      O a, b;
      if (i >= 0) a.emplace(V::at(i));
      if (j >= 0) b.emplace(V::at(j));
      ++gC.transitions;
      if (a == b && h(a) != h(b)) fail("HASH", std::string("hash=") + n + " pair " + std::to_string(i) + "," + std::to_string(j), "equal optionals with different hashes");
    }
  gC.states += N + 1;
}

// Every sequence of insert/erase/find up to a depth, against a plain list of keys.
template <class O>
void containers(char const * n, int depth)
{
  using T = std::remove_const_t<typename O::value_type>;
  using V = Vals<T>;
  constexpr int K = 1 + (V::N > 3 ? 3 : V::N);
  auto key = [](int k) {
    O o;
    if (k) o.emplace(V::at(k - 1));
    return o;
  };
  // 0.0 and -0.0 are the same key
  auto same = [&](int a, int b) { return a == b || (a && b && V::at(a - 1) == V::at(b - 1)); };
  std::vector<int> seq;
  std::function<void()> rec = [&] {
    if (static_cast<int>(seq.size()) == depth) {
      ++gC.executions;
      std::unordered_set<O> s;
      std::unordered_map<O, int> m;
      std::vector<int> model;
      int step = 0;
      for (int x : seq) {
        int const k = x % K, op = x / K;
        ++gC.transitions;
        ++step;
        bool in = false;
        for (int y : model) in = in || same(y, k);
        bool ok = true;
        if (op == 0) {
          ok = s.insert(key(k)).second == !in && m.emplace(key(k), step).second == !in;
          if (!in) model.push_back(k);
        }
        else if (op == 1) {
          ok = s.erase(key(k)) == (in ? 1u : 0u) && m.erase(key(k)) == (in ? 1u : 0u);
          for (std::size_t i = 0; i < model.size();) if (same(model[i], k)) model.erase(model.begin() + static_cast<long>(i)); else ++i;
        }
        for (int q = 0; q < K; ++q) {
          bool inq = false;
          for (int y : model) inq = inq || same(y, q);
          if ((s.count(key(q)) != 0) != inq || (m.find(key(q)) != m.end()) != inq) ok = false;
        }
        if (s.size() != model.size() || m.size() != model.size()) ok = false;
        if (!ok) {
          std::string t = std::string("hash=container of ") + n + " ops";
          for (int y : seq) t += " " + std::to_string(y);
          fail("HASH", t, "unordered container lost or duplicated a key in step " + std::to_string(step));
          return;
        }
      }
      return;
    }
    for (int x = 0; x < 2 * K; ++x) {
      seq.push_back(x);
      rec();
      seq.pop_back();
    }
  };
  rec();
}

// Generic manipulator and sentinels, to combine every payload with every representation.
template <class T>
struct GMan
{
  static void pattern(unsigned char * b) { for (std::size_t i = 0; i < sizeof(T); ++i) b[i] = static_cast<unsigned char>(0x7f - 3 * i); }
  static bool is_empty(T const & p) noexcept { unsigned char b[sizeof(T)]; pattern(b); return std::memcmp(static_cast<void const *>(std::addressof(p)), b, sizeof(T)) == 0; }
  static void init_empty_flag(T & p) noexcept { unsigned char b[sizeof(T)]; pattern(b); std::memcpy(static_cast<void *>(std::addressof(p)), b, sizeof(T)); }
  static void invalidate_empty_flag(T &) noexcept { }
};
template <class T> struct GSv { static constexpr T value = static_cast<T>(0x55); };
template <> struct GSv<bool> { static constexpr bool value = true; };
template <> struct GSv<int *> { static constexpr int * value = nullptr; };
// Every value of a range: the hash of the engaged optional is the payload's.
template <class O>
void range(char const * n, long long lo, long long hi, long long sentinel = 1ll << 40)
{
  using T = std::remove_const_t<typename O::value_type>;
  std::hash<O> const h{};
  std::hash<T> const hp{};
  std::size_t const e0 = h(O());
  for (long long v = lo; v <= hi; ++v) {
    if (v == sentinel) continue;
    T const x = static_cast<T>(v);
    O o;
    ++gC.executions;
    ++gC.transitions;
    if (h(o) != e0) fail("HASH", std::string("hash=") + n + " empty", "hash of an empty optional differs");
    o.emplace(x);
    if (o.has_value() && h(o) != hp(x)) { fail("HASH", std::string("hash=") + n + " value " + std::to_string(v), "hash differs from the payload's"); return; }
  }
}

template <class H, class O, class = void>
struct Callable : std::false_type { };
template <class H, class O>
struct Callable<H, O, std::void_t<decltype(std::declval<H const &>()(std::declval<O const &>()))>> : std::is_same<decltype(std::declval<H const &>()(std::declval<O const &>())), std::size_t> { };
template <class O>
void enabled(char const * n)
{
  using T = std::remove_const_t<typename O::value_type>;
  using HO = std::hash<O>;
  using HT = std::hash<T>;
  std::string const p = std::string("enabled=") + n;
  ++gC.states;
  gC.transitions += 5;
  auto eq = [&](bool a, bool b, char const * what) {
    if (a != b) fail("HASH", p, std::string(what) + (a ? " although the payload's hash does not allow it" : " is missing although the payload's hash has it"));
  };
  eq(std::is_default_constructible_v<HO>, std::is_default_constructible_v<HT>, "default constructor of the hash");
  eq(std::is_copy_constructible_v<HO>, std::is_copy_constructible_v<HT>, "copy constructor of the hash");
  eq(std::is_copy_assignable_v<HO>, std::is_copy_assignable_v<HT>, "assignment of the hash");
  if (std::is_default_constructible_v<HT>) {
    eq(Callable<HO, O>::value, true, "call operator of the hash");
    eq(std::is_default_constructible_v<std::unordered_set<O>>, true, "unordered_set");
  }
}
#define ENA(...) enabled<__VA_ARGS__>(#__VA_ARGS__)

template <class O>
void type(char const * n, bool cont = true)
{
  if (begin(n)) {
    histories<O>(n, gTier ? 4 : 3);
    if constexpr (std::is_copy_assignable_v<typename O::value_type> || true) {
      if (cont) containers<O>(n, gTier ? 6 : 5);
    }
    stat();
    sample(std::string(n) + ": assign v0, swap with engaged v1, swap with empty; container: insert empty, insert v0, erase empty, insert v1");
  }
}
#define TYP(...) type<__VA_ARGS__>(#__VA_ARGS__)
// One payload in every representation; with a lower depth. The member representations are in WM.
template <class T, bool Sv = true>
void reps(char const * n)
{
  auto one = [&](auto * o, char const * rep) {
    using O = std::remove_pointer_t<decltype(o)>;
    std::string const name = std::string(rep) + " of " + n;
    if (begin(name.c_str())) {
      histories<O>(name.c_str(), gTier ? 4 : 3);
      containers<O>(name.c_str(), gTier ? 5 : 4);
      enabled<O>(name.c_str());
      stat();
    }
  };
  one(static_cast<tiny::optional<T> *>(nullptr), "optional");
  one(static_cast<tiny::optional<T const> *>(nullptr), "optional const");
  one(static_cast<tiny::optional_inplace<T, GMan<T>> *>(nullptr), "optional_inplace");
  one(static_cast<tiny::optional_inplace<T const, GMan<T>> *>(nullptr), "optional_inplace const");
  if constexpr (Sv) {
    one(static_cast<tiny::optional_sentinel_via_type<T, GSv<T>> *>(nullptr), "optional_sentinel_via_type");
    one(static_cast<tiny::optional_sentinel_via_type<T const, GSv<T>> *>(nullptr), "optional_sentinel_via_type const");
    if constexpr (!std::is_floating_point_v<T>) {
      one(static_cast<tiny::optional<T, GSv<T>::value> *>(nullptr), "optional with sentinel");
      one(static_cast<tiny::optional_aip<T const, GSv<T>::value> *>(nullptr), "optional_aip with sentinel const");
    }
  }
}

int main(int argc, char ** argv)
{
  setup(argc, argv);
#if VH_PART == 0
  using OI = tiny::optional<int, -1>;
  TYP(OI);
  TYP(tiny::optional<int>);
  TYP(tiny::optional_aip<unsigned>);
  TYP(tiny::optional_aip<long long>);
  TYP(tiny::optional_sentinel_via_type<int, SV>);
  TYP(tiny::optional_sentinel_via_type<En, SVE>);
  TYP(tiny::optional<unsigned char>);
#elif VH_PART == 1
  TYP(tiny::optional<double>);
  TYP(tiny::optional<float>);
  TYP(tiny::optional<bool>);
  TYP(tiny::optional<int *>);
  TYP(tiny::optional_aip<bool>);
  TYP(tiny::optional_aip<int *>);
#elif VH_PART == 2
  TYP(tiny::optional<std::string>);
  TYP(tiny::optional<std::string_view>);
  TYP(tiny::optional<Ded>);
  using OD = tiny::optional<Ded, &Ded::irrelevant, -1>;
  TYP(OD);
  using OD2 = tiny::optional<Ded, &Ded::d>;
  TYP(OD2);
  TYP(tiny::optional_inplace<Ded, Man>);
  TYP(tiny::optional<Zero>);
  TYP(tiny::optional<Ovl>);
  // exceptions of the payload's hash reach the caller
  if (begin("throwing hash")) {
    tiny::optional<Ded> o(Ded(1)), e;
    OD o2(Ded(1));
    for (int i = 0; i < 2; ++i) {
      bool got = false;
      gBoom = true;
      try { i ? (void)std::hash<tiny::optional<Ded>>{}(o) : (void)std::hash<OD>{}(o2); } catch (HashBoom const &) { got = true; }
      (void)std::hash<tiny::optional<Ded>>{}(e);
      gBoom = false;
      ++gC.transitions;
      if (!got) fail("HASH", "throwing", "exception of the payload's hash got lost");
    }
    stat();
  }
#elif VH_PART == 3
  // const payloads
  TYP(tiny::optional<int const, -1>);
  TYP(tiny::optional<double const>);
  TYP(tiny::optional<bool const>);
  TYP(tiny::optional<std::string const>);
  TYP(tiny::optional<Ded const>);
  TYP(tiny::optional<int * const>);
#elif VH_PART == 5
  reps<int>("int"); reps<short>("short"); reps<unsigned char>("unsigned char"); reps<long long>("long long"); reps<char16_t>("char16_t");
#elif VH_PART == 6
  reps<double>("double"); reps<float>("float"); reps<long double>("long double"); reps<bool, false>("bool"); reps<int *, false>("int*");
#elif VH_PART == 7
  reps<En>("enum"); reps<Ded, false>("class Ded"); reps<Zero, false>("class Zero"); reps<Ovl, false>("class Ovl"); reps<std::string, false>("string"); reps<std::string_view, false>("string_view");
  if (begin("all values")) {
    range<tiny::optional<bool>>("optional<bool>", 0, 1);
    range<tiny::optional<unsigned char>>("optional<unsigned char>", 0, 255);
    range<tiny::optional<signed char, 5>>("optional<signed char, 5>", -128, 127, 5);
    range<tiny::optional<short>>("optional<short>", -32768, 32767);
    range<tiny::optional_aip<short>>("optional_aip<short>", -32768, 32767, -32768);
    range<tiny::optional_aip<unsigned short>>("optional_aip<unsigned short>", 0, 65535, 65535);
    range<tiny::optional_sentinel_via_type<char16_t, GSv<char16_t>>>("optional_sentinel_via_type<char16_t>", 0, 65535, 0x55);
    range<tiny::optional<int, -1>>("optional<int, -1>", -70000, 70000, -1);
    range<tiny::optional<float>>("optional<float>", -70000, 70000);
    range<tiny::optional<double>>("optional<double>", -70000, 70000);
    range<tiny::optional_inplace<double, GMan<double>>>("optional_inplace<double>", -70000, 70000);
    stat();
  }
#elif VH_PART == 4
  if (begin("enabled matrix")) {
    using OI = tiny::optional<int, -1>;
    ENA(OI); ENA(tiny::optional<int>); ENA(tiny::optional<int const>); ENA(tiny::optional_aip<int>); ENA(tiny::optional_aip<int const>);
    ENA(tiny::optional<double>); ENA(tiny::optional<double const>); ENA(tiny::optional<bool>); ENA(tiny::optional<int *>); ENA(tiny::optional<void (*)()>);
    ENA(tiny::optional<En>); ENA(tiny::optional<std::string>); ENA(tiny::optional<std::string const>); ENA(tiny::optional<std::unique_ptr<int>>);
    ENA(tiny::optional<std::vector<int>>); ENA(tiny::optional<std::vector<bool>>); ENA(tiny::optional<std::pair<int, int>>);
    ENA(tiny::optional<NoHash>); ENA(tiny::optional<OffHash>); ENA(tiny::optional<NoHash const>); ENA(tiny::optional<OffHash const>);
    using M1 = tiny::optional<NoHash, &NoHash::a, -1>;
    using M2 = tiny::optional<OffHash, &OffHash::a, -1>;
    using M3 = tiny::optional<Ded, &Ded::a, -1>;
    using M4 = tiny::optional<Ded, &Ded::d>;
    ENA(M1); ENA(M2); ENA(M3); ENA(M4);
    using V1 = tiny::optional_sentinel_via_type<NoHash, SV, &NoHash::a>;
    using V2 = tiny::optional_sentinel_via_type<Ded, SV, &Ded::a>;
    using V3 = tiny::optional_sentinel_via_type<int, SV>;
    using V4 = tiny::optional_sentinel_via_type<En, SVE>;
    ENA(V1); ENA(V2); ENA(V3); ENA(V4);
    using I1 = tiny::optional_inplace<Ded, Man>;
    ENA(I1); ENA(tiny::optional<Ded>); ENA(tiny::optional<Ded const>); ENA(tiny::optional<Zero>);
    ENA(tiny::optional<std::optional<int>>); ENA(tiny::optional<std::optional<NoHash>>); ENA(tiny::optional<tiny::optional<int>>); ENA(tiny::optional<tiny::optional<NoHash>>);
    ENA(tiny::optional<tiny::optional<double>>);
    gC.executions = gC.states * 2;
    stat();
    sample("std::hash<tiny::optional<NoHash, &NoHash::a, -1>> must be disabled");
  }
#endif
  return finish();
}
