// C17: the bytes of an empty optional after every history.
#include "common.hpp"
using namespace vh;

template <class M>
struct Pattern
{
  static constexpr std::size_t n = sizeof(M);
  static std::vector<unsigned char> bytes()
  {
    std::vector<unsigned char> r(n);
    if constexpr (std::is_same_v<M, bool>) {
      r[0] = 0xfe;
    }
    else if constexpr (std::is_same_v<M, float>) {
      std::uint32_t const v = 0x7fedcba9;
      std::memcpy(r.data(), &v, 4);
    }
    else if constexpr (std::is_same_v<M, double>) {
      std::uint64_t const v = 0x7ff8fedcba987654ull;
      std::memcpy(r.data(), &v, 8);
    }
    else {
      static_assert(std::is_pointer_v<M>);
      if constexpr (sizeof(M) == 8) {
        std::uint64_t const v = 0xffff800000000000ull - 1;
        std::memcpy(r.data(), &v, 8);
      }
      else {
        std::uint32_t const v = 0xffffffffu - 8;
        std::memcpy(r.data(), &v, 4);
      }
    }
    return r;
  }
};
template <class M>
M val(int i)
{
  if constexpr (std::is_same_v<M, bool>) return i & 1;
  else if constexpr (std::is_pointer_v<M>) return reinterpret_cast<M>(static_cast<std::uintptr_t>(i * 16));
  else return static_cast<M>(i * 0.5);
}
template <class M, std::size_t K>
struct S
{
  unsigned char pre[K];
  M m;
  short post;
  S() : S(1) { }
  explicit S(int i) : pre{}, m(val<M>(i)), post(7) { }
};
template <class P, class M>
struct Get
{
  static P make(int i)
  {
    if constexpr (std::is_same_v<P, M>) return val<M>(i);
    else return P(i);
  }
  static std::size_t off()
  {
    if constexpr (std::is_same_v<P, M>) return 0;
    else {
      static P const p(1);
      return static_cast<std::size_t>(reinterpret_cast<char const *>(&p.m) - reinterpret_cast<char const *>(&p));
    }
  }
};

template <class O, class M>
struct Pat
{
  using P = std::remove_cv_t<typename O::value_type>;
  using G = Get<P, M>;
  static constexpr bool mut = !std::is_const_v<typename O::value_type>;
  std::vector<unsigned char> const want = Pattern<M>::bytes();
  std::string ctx;
  void look(O const & o, char const * what)
  {
    opaque(&o);
    if (o.has_value()) return;
    ++gC.executions;
    unsigned char b[sizeof(O)];
    std::memcpy(b, static_cast<void const *>(&o), sizeof(O));
    if (std::memcmp(b + G::off(), want.data(), want.size()) != 0) {
      std::string s;
      char t[4];
      for (std::size_t i = 0; i < want.size(); ++i) {
        std::snprintf(t, sizeof t, "%02x", b[G::off() + want.size() - 1 - i]);
        s += t;
      }
      fail("PATTERN", ctx, std::string("empty optional (") + what + ") holds 0x" + s);
    }
  }
  static constexpr int N = 19;
  static char const * name(int k)
  {
    static char const * n[] = {"emplace", "assign value", "reset", "=nullopt", "={}", "copy-assign b", "move-assign b", "swap", "free swap", "b.emplace", "b.reset", "copy-construct", "move-construct", "=O()", "=O(nullopt)", "transform", "and_then", "or_else", "re-create"};
    return n[k];
  }
  void op(int k, O & a, O & b)
  {
    switch (k) {
    case 0: a.emplace(G::make(1)); break;
    case 1: if constexpr (mut) a = G::make(2); break;
    case 2: a.reset(); break;
    case 3: a = std::nullopt; break;
    case 4: if constexpr (mut) a = {}; break;
    case 5: if constexpr (mut) a = static_cast<O const &>(b); break;
    case 6: if constexpr (mut) a = std::move(b); break;
    case 7: if constexpr (mut) a.swap(b); break;
    case 8:
      if constexpr (mut) {
        using std::swap;
        swap(a, b);
      }
      break;
    case 9: b.emplace(G::make(3)); break;
    case 10: b.reset(); break;
    case 11: {
      O c(static_cast<O const &>(a));
      look(c, "copy");
      break;
    }
    case 12: {
      O c(std::move(a));
      look(c, "moved to");
      break;
    }
    case 13: if constexpr (mut) a = O(); break;
    case 14: if constexpr (mut) a = O(std::nullopt); break;
    case 15: {
      auto r = a.transform([](P const & p) { return p; });
      if constexpr (std::is_same_v<P, M>) {
        unsigned char buf[sizeof r];
        std::memcpy(buf, &r, sizeof r);
        if (!r.has_value() && std::memcmp(buf, want.data(), want.size()) != 0) fail("PATTERN", ctx, "empty result of transform()");
      }
      break;
    }
    case 16: {
      auto r = a.and_then([](P const &) { return O(); });
      look(r, "result of and_then()");
      break;
    }
    case 17:
#if __cplusplus >= 202002L
    {
      auto r = a.or_else([] { return O(); });
      look(r, "result of or_else()");
    }
#endif
    break;
    case 18:
      a.~O();
      std::memset(static_cast<void *>(&a), 0x5A, sizeof(O));
      new (static_cast<void *>(&a)) O(std::nullopt);
      break;
    }
  }
  void run(std::string const & nm)
  {
    if (!begin(nm)) return;
    int const depth = gTier ? 4 : 3;
    long total = 1;
    for (int i = 0; i < depth; ++i) total *= N;
    for (int fill : {0x00, 0xFF, 0xA5}) {
      for (long c = 0; c < total; ++c) {
        alignas(O) unsigned char ma[sizeof(O)], mb[sizeof(O)];
        std::memset(ma, fill, sizeof ma);
        std::memset(mb, fill, sizeof mb);
        O * a = new (ma) O();
        O * b = new (mb) O(std::nullopt);
        ctx = "bits=start";
        look(*a, "default");
        look(*b, "nullopt");
        long x = c;
        int ops[8];
        for (int i = 0; i < depth; ++i, x /= N) ops[i] = static_cast<int>(x % N);
        ctx = "bits=";
        for (int i = 0; i < depth; ++i) {
          if (i + 1 == depth) {
            ctx.clear();
            for (int j = 0; j < depth; ++j) ctx += std::string(j ? ", " : "hist=") + name(ops[j]);
          }
          op(ops[i], *a, *b);
        }
        gC.transitions += depth;
        look(*a, "a");
        look(*b, "b");
        a->~O();
        b->~O();
        if (gFails > 10) return;
      }
    }
    gC.states = total;
    sample("empty after " + ctx);
    stat();
  }
};

template <class M>
void kind(char const * n)
{
  std::string const s = n;
  Pat<tiny::optional<M>, M>().run(s);
  Pat<tiny::optional<M const>, M>().run(s + " const");
  Pat<tiny::optional_aip<M>, M>().run("aip " + s);
  Pat<tiny::optional_sentinel_via_type<M, tiny::UseDefaultType>, M>().run("via type " + s);
  using S1 = S<M, 1>;
  using S9 = S<M, 9>;
  Pat<tiny::optional<S1, &S1::m>, M>().run("member " + s);
  Pat<tiny::optional<S9, &S9::m>, M>().run("member " + s + " at 9+");
  Pat<tiny::optional_sentinel_via_type<S1, tiny::UseDefaultType, &S1::m>, M>().run("member via type " + s);
}

int main(int argc, char ** argv)
{
  setup(argc, argv);
#if VH_PART == 0
  kind<bool>("bool");
  kind<float>("float");
#elif VH_PART == 1
  kind<double>("double");
  kind<int *>("int*");
#elif VH_PART == 2
  kind<void const *>("void const*");
  kind<int (*)(int)>("function pointer");
#elif VH_PART == 3
  kind<char **>("char**");
  struct Inc;
  kind<Inc *>("pointer to incomplete");
#endif
  return finish();
}
