// C15: const access never writes, distinct optionals share no state.
//   ro:    every const operation on an optional in a write-protected page.
//   step:  every operation is interrupted at every single machine instruction by a complete history of a second "thread" on
//          other optionals (or by const operations on the same optional).
//   sched: two threads, each running one or two operations on its own optionals, switched at every payload operation, flag
//          manipulation and callback: all interleavings.
//   merge: all op-level interleavings of all pairs of two-operation histories.
//   race:  real threads under ThreadSanitizer (auxiliary).
#include "common.hpp"
#include <sys/mman.h>
#include <thread>
#include <ucontext.h>
using namespace vh;

// ---- scheduling point -------------------------------------------------------------------------------------------
static void (*gYield)() = nullptr;
static inline void point()
{
  if (gYield) gYield();
}

// ---- payloads ---------------------------------------------------------------------------------------------------
struct CSV
{
  static constexpr int value = -4;
};
struct LPlain
{
  using M = int;
  static M flag(int i) { return i; }
};
struct LDbl
{
  using M = double;
  static M flag(int i) { return i * 0.5; }
};
struct LBoo
{
  using M = bool;
  static M flag(int i) { return i & 1; }
};
struct LPtr
{
  using M = int *;
  static M flag(int i) { return reinterpret_cast<int *>(static_cast<std::uintptr_t>(16 * i)); }
};
template <class L>
struct Pay
{
  int v;
  typename L::M m;
  int w;
  void set(int x)
  {
    v = x;
    m = L::flag(x);
    w = ~x;
  }
  bool consistent() const { return w == ~v && m == L::flag(v); }
  explicit Pay(int x)
  {
    set(x);
    point();
  }
  Pay(Pay const & o)
  {
    point();
    set(o.v);
    point();
  }
  Pay(Pay && o) noexcept
  {
    point();
    set(o.v);
    o.set(7);
    point();
  }
  Pay & operator=(Pay const & o)
  {
    point();
    set(o.v);
    point();
    return *this;
  }
  Pay & operator=(Pay && o) noexcept
  {
    point();
    int const x = o.v;
    o.set(7);
    set(x);
    point();
    return *this;
  }
  ~Pay() { point(); }
  friend void swap(Pay & a, Pay & b) noexcept
  {
    point();
    int const x = a.v;
    a.set(b.v);
    b.set(x);
    point();
  }
#define CMP(op) \
  friend bool operator op(Pay const & a, Pay const & b) \
  { \
    point(); \
    return a.v op b.v; \
  }
  CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
};
template <class L>
struct std::hash<Pay<L>>
{
  std::size_t operator()(Pay<L> const & p) const noexcept
  {
    point();
    return static_cast<std::size_t>(p.v * 31 + 5);
  }
};
struct CMan
{
  static bool is_empty(Pay<LPlain> const & p) noexcept
  {
    return p.v == -3 && p.w == -3;
  }
  static void init_empty_flag(Pay<LPlain> & p) noexcept
  {
    point();
    p.v = -3;
    point();
    p.w = -3;
  }
  static void invalidate_empty_flag(Pay<LPlain> & p) noexcept
  {
    point();
    p.w = 0;
  }
};
struct Whole : Pay<LPlain>
{
  using Pay<LPlain>::Pay;
};
template <>
struct std::hash<Whole> : std::hash<Pay<LPlain>>
{
};
template <>
struct tiny::optional_flag_manipulator<Whole>
{
  static bool is_empty(Whole const & p) noexcept { return CMan::is_empty(p); }
  static void init_empty_flag(Whole & p) noexcept { CMan::init_empty_flag(p); }
  static void invalidate_empty_flag(Whole & p) noexcept { CMan::invalidate_empty_flag(p); }
};
struct Big : Pay<LPlain>
{
  long pad[40];
  using Pay<LPlain>::Pay;
};
template <>
struct std::hash<Big> : std::hash<Pay<LPlain>>
{
};

template <class P>
P mk(int i)
{
  if constexpr (std::is_same_v<P, bool>) return i & 1;
  else if constexpr (std::is_pointer_v<P>) return reinterpret_cast<P>(static_cast<std::uintptr_t>(16 * i));
  else if constexpr (std::is_floating_point_v<P>) return static_cast<P>(i * 0.25);
  else return P(i);
}
template <class P>
long rd(P const & p)
{
  if constexpr (std::is_same_v<P, bool>) {
    unsigned char c;
    std::memcpy(&c, &p, 1);
    return c;
  }
  else if constexpr (std::is_pointer_v<P>) return static_cast<long>(reinterpret_cast<std::uintptr_t>(p));
  else if constexpr (std::is_floating_point_v<P>) return static_cast<long>(p * 4);
  else if constexpr (std::is_integral_v<P>) return static_cast<long>(p);
  else if constexpr (std::is_base_of_v<Pay<LPlain>, P>) return p.consistent() ? p.v : -9999;
  else return p.consistent() ? p.v : -9999;
}

struct Log
{
  long a[48];
  int n = 0;
  void add(long x)
  {
    if (n < 48) a[n] = x;
    ++n;
  }
  bool operator==(Log const & o) const { return n == o.n && std::memcmp(a, o.a, sizeof(long) * static_cast<std::size_t>(n < 48 ? n : 48)) == 0; }
  std::string str() const
  {
    std::string s;
    for (int i = 0; i < n && i < 48; ++i) s += (i ? "," : "") + std::to_string(a[i]);
    return s;
  }
};

template <class O>
struct Ops
{
  using P = rcvr<decltype(*std::declval<O &>())>;
  static constexpr bool mut = !std::is_const_v<std::remove_reference_t<decltype(*std::declval<O &>())>>;
  static void snap(O const & o, Log & l)
  {
    bool const h = o.has_value();
    l.add(h);
    if (h) l.add(rd<P>(*o));
  }
  static constexpr int N = 25;
  static char const * name(int k)
  {
    static char const * n[] = {"emplace", "assign rvalue", "reset", "copy-assign", "move-assign", "swap", "free swap", "has_value/bool", "*", "value_or", "compare optionals", "hash", "transform", "and_then", "or_else", "copy ctor",
        "move ctor", "make_optional", "assign own value", "self copy-assign", "assign const lvalue", "compare value/nullopt", "emplace other", "value()", "rvalue value_or"};
    return n[k];
  }
  // Operation k of thread t (values of different threads differ).
  static void run(int k, O & a, O & b, Log & l, int t)
  {
    int const v0 = 2 + 3 * t, v1 = 3 + 3 * t;
    l.add(100 + k);
    switch (k) {
    case 0: a.emplace(mk<P>(v0)); break;
    case 1: if constexpr (mut) a = mk<P>(v1); break;
    case 2: a.reset(); break;
    case 3: if constexpr (mut) a = static_cast<O const &>(b); break;
    case 4: if constexpr (mut) a = std::move(b); break;
    case 5: if constexpr (mut) a.swap(b); break;
    case 6:
      if constexpr (mut) {
        using std::swap;
        swap(b, a);
      }
      break;
    case 7:
      l.add(a.has_value());
      l.add(static_cast<bool>(b));
      break;
    case 8:
      if (a.has_value()) l.add(rd<P>(*a));
      break;
    case 9: l.add(rd<P>(static_cast<O const &>(a).value_or(mk<P>(v1)))); break;
    case 10:
      l.add((a == b) * 1 + (a != b) * 2 + (a < b) * 4 + (a <= b) * 8 + (a > b) * 16 + (a >= b) * 32);
      break;
    case 11: l.add(static_cast<long>(std::hash<O>()(a) == (a.has_value() ? std::hash<P>()(*a) : std::hash<O>()(O())))); break;
    case 12: {
      auto r = a.transform([](P const & p) { point(); return rd<P>(p) + 1; });
      l.add(r.has_value() ? *r : -1);
      break;
    }
    case 13: {
      auto r = static_cast<O const &>(a).and_then([](P const & p) { point(); return std::optional<long>(rd<P>(p) + 2); });
      l.add(r.has_value() ? *r : -1);
      break;
    }
    case 14:
#if __cplusplus >= 202002L
    {
      O r = static_cast<O const &>(a).or_else([&] { point(); return O(mk<P>(v1)); });
      snap(r, l);
    }
#endif
    break;
    case 15: {
      O c(static_cast<O const &>(a));
      snap(c, l);
      break;
    }
    case 16: {
      O c(std::move(a));
      snap(c, l);
      break;
    }
    case 17: {
      auto c = tiny::make_optional<P>(mk<P>(v0));
      l.add(rd<P>(*c));
      break;
    }
    case 18:
      if constexpr (mut) {
        if (a.has_value()) a = *a;
      }
      break;
    case 19: if constexpr (mut) a = static_cast<O const &>(a); break;
    case 20:
      if constexpr (mut) {
        P const p = mk<P>(v0);
        b = p;
      }
      break;
    case 21: {
      P const p = mk<P>(v0);
      l.add((a == p) * 1 + (a != p) * 2 + (p < a) * 4 + (p >= a) * 8 + (a == std::nullopt) * 16 + (std::nullopt < a) * 32);
      break;
    }
    case 22: b.emplace(mk<P>(v1)); break;
    case 23:
      if (b.has_value()) l.add(rd<P>(b.value()));
      break;
    case 24: l.add(rd<P>(O(static_cast<O const &>(b)).value_or(mk<P>(v0)))); break;
    }
  }
  static void start(O & a, O & b, int s, int t)
  {
    if (s & 1) a.emplace(mk<P>(4 + 3 * t));
    if (s & 2) b.emplace(mk<P>(3 * t));
  }
};

template <class O>
struct Slot // raw memory for an optional
{
  alignas(O) unsigned char mem[sizeof(O)];
  O & o() { return *std::launder(reinterpret_cast<O *>(mem)); }
};
template <class O>
struct Pair
{
  Slot<O> a, b;
  Pair(int s, int t)
  {
    std::memset(static_cast<void *>(this), 0xFE, sizeof *this);
    new (a.mem) O();
    new (b.mem) O();
    Ops<O>::start(a.o(), b.o(), s, t);
  }
  void end(Log & l)
  {
    Ops<O>::snap(a.o(), l);
    Ops<O>::snap(b.o(), l);
    a.o().~O();
    b.o().~O();
  }
};

template <class O>
Log alone(std::vector<int> const & ops, int s, int t)
{
  Log l;
  Pair<O> p(s, t);
  for (int k : ops) Ops<O>::run(k, p.a.o(), p.b.o(), l, t);
  p.end(l);
  return l;
}

static std::string hist(int s, std::vector<int> const & ops, char const * (*nm)(int))
{
  std::string r = s == 0 ? "(empty,empty)" : s == 1 ? "(engaged,empty)" : s == 2 ? "(empty,engaged)" : "(engaged,engaged)";
  for (int k : ops) r += std::string(" ") + nm(k) + ";";
  return r;
}

// ---- ro ---------------------------------------------------------------------------------------------------------
static unsigned char * gPages = nullptr;
static std::size_t const PG = 4096;
template <class O>
struct ConstOps
{
  using P = typename Ops<O>::P;
  static constexpr int N = 28;
  static void run(int k, O const & c, O & other, Log & l)
  {
    bool const h = c.has_value();
    switch (k) {
    case 0: l.add(h); break;
    case 1: l.add(static_cast<bool>(c)); break;
    case 2: if (h) l.add(rd<P>(*c)); break;
    case 3: if (h) l.add(rd<P>(*c.operator->())); break;
    case 4: if (h) l.add(rd<P>(c.value())); break;
    case 5: if (h) l.add(rd<P>(*std::move(c))); break;
    case 6: if (h) l.add(rd<P>(std::move(c).value())); break;
    case 7: l.add(rd<P>(c.value_or(mk<P>(1)))); break;
    case 8: l.add(rd<P>(std::move(c).value_or(mk<P>(1)))); break;
    case 9: l.add((c == other) + 2 * (c != other) + 4 * (c < other) + 8 * (c <= other) + 16 * (c > other) + 32 * (c >= other)); break;
    case 10: l.add((other == c) + 2 * (other != c) + 4 * (other < c) + 8 * (other <= c) + 16 * (other > c) + 32 * (other >= c)); break;
    case 11: l.add((c == c) + 2 * (c != c) + 4 * (c < c) + 8 * (c <= c)); break;
    case 12: {
      P const p = mk<P>(1);
      l.add((c == p) + 2 * (c != p) + 4 * (c < p) + 8 * (c <= p) + 16 * (c > p) + 32 * (c >= p));
      l.add((p == c) + 2 * (p != c) + 4 * (p < c) + 8 * (p <= c) + 16 * (p > c) + 32 * (p >= c));
      break;
    }
    case 13: l.add((c == std::nullopt) + 2 * (c != std::nullopt) + 4 * (c < std::nullopt) + 8 * (c <= std::nullopt) + 16 * (c > std::nullopt) + 32 * (c >= std::nullopt)); break;
    case 14: l.add((std::nullopt == c) + 2 * (std::nullopt != c) + 4 * (std::nullopt < c) + 8 * (std::nullopt <= c) + 16 * (std::nullopt > c) + 32 * (std::nullopt >= c)); break;
    case 15: {
      std::optional<P> const s = h ? std::optional<P>(*c) : std::optional<P>();
      l.add((c == s) + 2 * (c != s) + 4 * (c < s) + 8 * (s == c) + 16 * (s < c) + 32 * (s >= c));
      break;
    }
    case 16: l.add(static_cast<long>(std::hash<O>()(c) & 0xFFFF)); break;
    case 17: {
      O x(c);
      Ops<O>::snap(x, l);
      break;
    }
    case 18: {
      O x(std::move(c));
      Ops<O>::snap(x, l);
      break;
    }
    case 19:
      if constexpr (Ops<O>::mut) {
        other = c;
        Ops<O>::snap(other, l);
      }
      break;
    case 20:
      if constexpr (Ops<O>::mut) {
        other = std::move(c);
        Ops<O>::snap(other, l);
      }
      break;
    case 21:
      if constexpr (Ops<O>::mut) {
        if (h) other = *c;
        Ops<O>::snap(other, l);
      }
      break;
    case 22:
      if (h) other.emplace(*c);
      Ops<O>::snap(other, l);
      break;
    case 23: {
      auto r = c.transform([](P const & p) { return rd<P>(p); });
      l.add(r.has_value() ? *r : -1);
      auto r2 = std::move(c).transform([](P const && p) { return rd<P>(p); });
      l.add(r2.has_value() ? *r2 : -1);
      break;
    }
    case 24: {
      auto r = c.and_then([](P const & p) { return std::optional<long>(rd<P>(p)); });
      l.add(r.has_value() ? *r : -1);
      auto r2 = std::move(c).and_then([](P const && p) { return tiny::optional<long>(rd<P>(p)); });
      l.add(r2.has_value() ? *r2 : -1);
      break;
    }
    case 25:
#if __cplusplus >= 202002L
    {
      O x = c.or_else([] { return O(mk<P>(1)); });
      Ops<O>::snap(x, l);
    }
#endif
    break;
    case 26:
      if (!h) {
        try {
          (void)c.value();
          l.add(-5);
        }
        catch (std::bad_optional_access const &) {
          l.add(-6);
        }
      }
      break;
    case 27: {
      auto y = c;
      auto const z = y;
      Ops<O>::snap(z, l);
      break;
    }
    }
  }
};

template <class O>
void ro(std::string const & nm)
{
  if (!begin("ro " + nm)) return;
  using P = typename Ops<O>::P;
  std::size_t const len = (sizeof(O) + PG - 1) / PG * PG;
  for (int how = 0; how < 7; ++how)
    for (int place = 0; place < 2; ++place)
      for (int oth = 0; oth < 2; ++oth) {
        ++gC.states;
        unsigned char * at = gPages + (place ? len - (sizeof(O) + alignof(O) - 1) / alignof(O) * alignof(O) : 0);
        for (int k = 0; k < ConstOps<O>::N; ++k) {
          Log l, ref;
          // The same operation on an ordinary copy of the object gives the expected results.
          for (int pass = 0; pass < 2; ++pass) {
            std::memset(gPages, 0xFE, len);
            unsigned char * w = at;
            O * o = how == 3 ? new (w) O(mk<P>(2)) : new (w) O();
            if (how == 1 || how == 4 || how == 5 || how == 6) o->emplace(mk<P>(how == 6 ? 1 : 2));
            if (how == 4) o->reset();
            if (how == 5) {
              O t(std::move(*o));
              o->reset();
            }
            Slot<O> x;
            new (x.mem) O();
            if (oth) x.o().emplace(mk<P>(3));
            gCtx = "const operation " + std::to_string(k) + " on a write-protected optional (history " + std::to_string(how) + ")";
            unsigned char before[sizeof(O)];
            std::memcpy(before, at, sizeof(O));
            if (pass) mprotect(gPages, len, PROT_READ);
            ConstOps<O>::run(k, *o, x.o(), pass ? l : ref);
            if (pass) mprotect(gPages, len, PROT_READ | PROT_WRITE);
            if (std::memcmp(before, at, sizeof(O)) != 0) {
              fail("CONST", gCtx, "a const operation changed the bytes of the optional");
            }
            x.o().~O();
            o->~O();
          }
          gC.transitions += 2; // once in ordinary and once in write-protected memory
          ++gC.executions;
          if (!(l == ref)) fail("CONST", gCtx, "different result on write-protected memory: " + l.str() + " instead of " + ref.str());
        }
      }
  sample("empty after emplace+reset, at the end of a PROT_READ page: const operations 0.." + std::to_string(ConstOps<O>::N - 1));
  stat();
}

// ---- step -------------------------------------------------------------------------------------------------------
#if defined(__x86_64__) || defined(__i386__)
static volatile long gStep, gAt;
static volatile int gMode;
static void (*gOther)();
static void onTrap(int, siginfo_t *, void * u)
{
  auto & m = static_cast<ucontext_t *>(u)->uc_mcontext;
  if (gMode == 1) { // begin stepping
    gMode = 2;
    m.gregs[REG_EFL] |= 0x100;
    return;
  }
  if (gMode == 2) {
    if (gStep == gAt) {
      gMode = 0;
      m.gregs[REG_EFL] &= ~0x100;
      gOther();
      return;
    }
    gStep = gStep + 1;
    return;
  }
  m.gregs[REG_EFL] &= ~0x100;
}
static bool stepWorks()
{
  static volatile int hit;
  hit = 0;
  gOther = [] { hit = hit + 1; };
  gStep = 0;
  gAt = 3;
  gMode = 1;
  asm volatile("int3\n nop\n nop\n nop\n nop\n nop\n nop\n nop" ::: "memory");
  if (gMode == 2) {
    gMode = 3;
    asm volatile("int3" ::: "memory");
  }
  return hit == 1;
}

template <class O>
struct Inter
{
  static inline Log la, lb;
  static inline Pair<O> * pa = nullptr;
  static inline O const * shared = nullptr;
  static inline int bs = 0;
  // The other thread: a complete history on its own optionals that uses every operation once.
  static void historyB()
  {
    lb = Log();
    Pair<O> p(bs, 1);
    static int const prog[] = {15, 3, 5, 9, 10, 12, 13, 4, 6, 1, 8, 0, 21, 2, 7, 14, 22, 16, 24, 20, 17, 11};
    for (int k : prog) {
      lb.n = lb.n > 40 ? 40 : lb.n;
      Ops<O>::run(k, p.a.o(), p.b.o(), lb, 1);
    }
    lb.n = lb.n > 40 ? 40 : lb.n;
    p.end(lb);
  }
  // The other thread: const access to the same optional.
  static void constB()
  {
    lb = Log();
    O x;
    for (int k : {0, 2, 7, 9, 17, 19, 23, 12}) {
      ConstOps<O>::run(k, *shared, x, lb);
    }
  }
};

template <class F>
static void interrupted(long k, F && f)
{
  gStep = 0;
  gAt = k;
  gMode = 1;
  asm volatile("int3" ::: "memory");
  f();
  if (gMode == 2) {
    gMode = 3;
    asm volatile("int3" ::: "memory");
  }
}

template <class O>
void step(std::string const & nm)
{
  if (!begin("step " + nm)) return;
  using I = Inter<O>;
  struct sigaction sa = {};
  sa.sa_sigaction = onTrap;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, nullptr);
  if (!stepWorks()) {
    gC.states = 1;
    stat("|capped=1");
    return;
  }
  long const maxStep = 1500;
  bool capped = false;
  for (int s = 0; s < 4; ++s) {
    for (int bs = 0; bs < (gTier ? 4 : 1); ++bs) {
      I::bs = gTier ? bs : 3 - s;
      I::historyB();
      Log const refB = I::lb;
      for (int k = 0; k < Ops<O>::N; ++k) {
        Log const refA = alone<O>({k}, s, 0);
        ++gC.states;
        for (long at = 0;; ++at) {
          if (at > maxStep) {
            capped = true;
            break;
          }
          gCtx = "step=" + hist(s, {k}, Ops<O>::name) + " interrupted after instruction " + std::to_string(at) + " by a history of another thread";
          Log la;
          gOther = I::historyB;
          bool more;
          {
            Pair<O> p(s, 0);
            I::lb = Log();
            interrupted(at, [&] { Ops<O>::run(k, p.a.o(), p.b.o(), la, 0); });
            more = gMode == 0;
            p.end(la);
          }
          if (!more) break;
          ++gC.executions;
          gC.transitions += at + 1; // instructions executed one by one
          if (!(la == refA)) fail("SHARED", gCtx, "the interrupted thread observed " + la.str() + " instead of " + refA.str());
          if (!(I::lb == refB)) fail("SHARED", gCtx, "the interrupting thread observed " + I::lb.str() + " instead of " + refB.str());
          if (gFails > 20) return;
        }
      }
    }
    // const access to the same optional
    if (s < 2) {
      for (int k = 0; k < ConstOps<O>::N; ++k) {
        if (k == 26) continue; // throws
        Pair<O> p(s | 2, 0);
        I::shared = &p.a.o();
        I::constB();
        Log const refB = I::lb;
        Log refA;
        {
          Pair<O> q(0, 0);
          ConstOps<O>::run(k, p.a.o(), q.b.o(), refA);
          Log dummy;
          q.end(dummy);
        }
        ++gC.states;
        gOther = I::constB;
        for (long at = 0; at <= maxStep; ++at) {
          gCtx = "step=const operation " + std::to_string(k) + " interrupted after instruction " + std::to_string(at) + " by const access to the same optional, engaged=" + std::to_string(s);
          Pair<O> q(0, 0);
          Log la;
          I::lb = Log();
          interrupted(at, [&] { ConstOps<O>::run(k, p.a.o(), q.b.o(), la); });
          bool const more = gMode == 0;
          Log dummy;
          q.end(dummy);
          if (!more) break;
          ++gC.executions;
          gC.transitions += at + 1; // instructions executed one by one
          if (!(la == refA) || !(I::lb == refB)) fail("SHARED", gCtx, "result differs: " + la.str() + " / " + I::lb.str() + " instead of " + refA.str() + " / " + refB.str());
          if (gFails > 20) return;
        }
        Log dummy;
        p.end(dummy);
      }
    }
  }
  sample(gCtx);
  stat(capped ? "|capped=1" : "");
}
#endif

// ---- sched ------------------------------------------------------------------------------------------------------
struct Sched
{
  static constexpr std::size_t STK = 256 * 1024;
  ucontext_t main, th[2];
  unsigned char * stack[2];
  bool done[2];
  int cur = -1;
  static Sched & get()
  {
    static Sched * s = new Sched();
    return *s;
  }
  Sched()
  {
    for (auto & p : stack) p = static_cast<unsigned char *>(mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  }
  static void yield()
  {
    Sched & s = get();
    swapcontext(&s.th[s.cur], &s.main);
  }
  static std::function<void()> * body[2];
  static void entry(int t)
  {
    (*body[t])();
    Sched & s = get();
    s.done[t] = true;
    gYield = nullptr;
    swapcontext(&s.th[t], &s.main);
  }
  // Runs with the given choices; appends further choices (always 0). Returns the number of enabled threads per choice.
  // Choice 0 continues the running thread; at most 'bound' preemptions.
  void run(std::vector<int> & choice, std::vector<int> & width, int bound)
  {
    width.clear();
    int last = -1, preempt = 0;
    for (int t = 0; t < 2; ++t) {
      getcontext(&th[t]);
      th[t].uc_stack.ss_sp = stack[t];
      th[t].uc_stack.ss_size = STK;
      th[t].uc_link = nullptr;
      makecontext(&th[t], reinterpret_cast<void (*)()>(entry), 1, t);
      done[t] = false;
    }
    std::size_t i = 0;
    while (!done[0] || !done[1]) {
      int en[2], n = 0;
      if (last >= 0 && !done[last]) en[n++] = last;
      for (int t = 0; t < 2; ++t)
        if (!done[t] && t != last && (n == 0 || last < 0 || preempt < bound)) en[n++] = t;
      if (i == choice.size()) choice.push_back(0);
      width.push_back(n);
      cur = en[choice[i] < n ? choice[i] : 0];
      if (last >= 0 && !done[last] && cur != last) ++preempt;
      last = cur;
      ++i;
      gYield = yield;
      swapcontext(&main, &th[cur]);
      gYield = nullptr;
    }
    choice.resize(i);
  }
};
std::function<void()> * Sched::body[2];

template <class O>
void sched(std::string const & nm, bool deep)
{
  if (!begin("sched " + nm)) return;
  Sched & sc = Sched::get();
  using H = std::vector<int>;
  std::vector<H> ha, hb;
  for (int k = 0; k < Ops<O>::N; ++k) {
    if (k == 7 || k == 8 || k == 23) continue; // no scheduling point inside
    ha.push_back({k});
  }
  hb = ha;
  if (deep) {
    for (int k : {1, 4, 5, 12, 9})
      for (int j : {2, 15, 10}) hb.push_back({k, j});
  }
  long schedules = 0;
  for (int s = 0; s < 4; ++s)
    for (int s2 = 0; s2 < 4; ++s2) {
      if (!deep && s2 != 3 - s && s2 != s) continue;
      for (auto const & A : ha)
        for (auto const & B : hb) {
          if (&A - ha.data() > &B - hb.data() && s == s2 && B.size() == 1) continue; // symmetric
          Log const refA = alone<O>(A, s, 0), refB = alone<O>(B, s2, 1);
          ++gC.states;
          std::vector<int> choice, width;
          long cnt = 0;
          for (;;) {
            Log la, lb;
            {
              Pair<O> pa(s, 0), pb(s2, 1);
              std::function<void()> fa = [&] {
                for (int k : A) Ops<O>::run(k, pa.a.o(), pa.b.o(), la, 0);
              };
              std::function<void()> fb = [&] {
                for (int k : B) Ops<O>::run(k, pb.a.o(), pb.b.o(), lb, 1);
              };
              Sched::body[0] = &fa;
              Sched::body[1] = &fb;
              sc.run(choice, width, deep ? 4 : 3);
              pa.end(la);
              pb.end(lb);
            }
            ++cnt;
            gC.transitions += static_cast<long>(choice.size());
            if (!(la == refA) || !(lb == refB)) {
              std::string c;
              for (int x : choice) c += static_cast<char>('0' + x);
              fail("SHARED", "sched=" + hist(s, A, Ops<O>::name) + " || " + hist(s2, B, Ops<O>::name) + " schedule " + c,
                  la.str() + " / " + lb.str() + " instead of " + refA.str() + " / " + refB.str());
              if (gFails > 20) return;
            }
            // next schedule
            int i = static_cast<int>(choice.size()) - 1;
            while (i >= 0 && choice[static_cast<std::size_t>(i)] + 1 >= width[static_cast<std::size_t>(i)]) --i;
            if (i < 0) break;
            ++choice[static_cast<std::size_t>(i)];
            choice.resize(static_cast<std::size_t>(i) + 1);
          }
          schedules += cnt;
        }
    }
  gC.executions = schedules;
  sample("all schedules of: swap || move-assign on two pairs of optionals");
  stat();
}

// ---- merge ------------------------------------------------------------------------------------------------------
template <class O>
void merge(std::string const & nm)
{
  if (!begin("merge " + nm)) return;
  int const N = Ops<O>::N;
  static unsigned char const sch[6][4] = {{0, 0, 1, 1}, {0, 1, 0, 1}, {0, 1, 1, 0}, {1, 0, 0, 1}, {1, 0, 1, 0}, {1, 1, 0, 0}};
  for (int s = 0; s < 4; ++s) {
    int const s2 = 3 - s;
    std::vector<Log> ra, rb;
    for (int i = 0; i < N * N; ++i) {
      ra.push_back(alone<O>({i / N, i % N}, s, 0));
      rb.push_back(alone<O>({i / N, i % N}, s2, 1));
    }
    for (int i = 0; i < N * N; ++i) {
      if (i % gShards != gShard) continue;
      for (int j = 0; j < N * N; ++j) {
        ++gC.states;
        for (auto const & sc : sch) {
          Log l[2];
          Pair<O> p[2] = {Pair<O>(s, 0), Pair<O>(s2, 1)};
          int pos[2] = {0, 0};
          for (int q = 0; q < 4; ++q) {
            int const t = sc[q];
            int const h = t ? j : i;
            int const k = pos[t]++ ? h % N : h / N;
            Ops<O>::run(k, p[t].a.o(), p[t].b.o(), l[t], t);
          }
          p[0].end(l[0]);
          p[1].end(l[1]);
          ++gC.executions;
          gC.transitions += 4;
          if (!(l[0] == ra[static_cast<std::size_t>(i)]) || !(l[1] == rb[static_cast<std::size_t>(j)])) {
            fail("SHARED", "merge=" + hist(s, {i / N, i % N}, Ops<O>::name) + " || " + hist(s2, {j / N, j % N}, Ops<O>::name),
                l[0].str() + " / " + l[1].str() + " instead of " + ra[static_cast<std::size_t>(i)].str() + " / " + rb[static_cast<std::size_t>(j)].str());
            if (gFails > 20) return;
          }
        }
      }
    }
  }
  sample("merge of (engaged,empty) transform; swap; || (empty,engaged) value_or; reset;");
  stat();
}

// ---- race -------------------------------------------------------------------------------------------------------
template <class O>
void race(std::string const & nm)
{
  if (!begin("race " + nm)) return;
  O const e;
  O const v(mk<typename Ops<O>::P>(2));
  for (int r = 0; r < 4; ++r) {
    std::vector<std::thread> th;
    static Log res[3];
    for (int t = 0; t < 3; ++t) {
      th.emplace_back([&, t] {
        Log all;
        for (int s = 0; s < 4; ++s)
          for (int k = 0; k < Ops<O>::N; ++k) {
            Log l = alone<O>({k}, s, t);
            for (int i = 0; i < l.n; ++i) all.add(l.a[i]);
            all.n = all.n > 40 ? 40 : all.n;
          }
        for (int k = 0; k < ConstOps<O>::N; ++k) {
          O x;
          all.n = 0;
          ConstOps<O>::run(k, e, x, all);
          ConstOps<O>::run(k, v, x, all);
        }
        res[t] = all;
      });
    }
    for (auto & t : th) t.join();
    gC.executions += 3;
  }
  gC.states = 1;
  gC.transitions = 3 * 4 * Ops<O>::N;
  stat();
}

template <class O>
void all(std::string const & nm, bool hooks)
{
#if VH_MODE == 0
  ro<O>(nm);
#elif VH_MODE == 1
  step<O>(nm);
#elif VH_MODE == 2
  if (hooks) sched<O>(nm, gTier);
#elif VH_MODE == 3
  merge<O>(nm);
#elif VH_MODE == 4
  race<O>(nm);
#endif
  (void)hooks;
}

int main(int argc, char ** argv)
{
  setup(argc, argv);
  gPages = static_cast<unsigned char *>(mmap(nullptr, 4 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  using Fn = int (*)(int);
  using P0 = Pay<LPlain>;
  using PD = Pay<LDbl>;
  using PB = Pay<LBoo>;
  using PP = Pay<LPtr>;
#define X(nm, hooks, ...) { using O = __VA_ARGS__; all<O>(nm, hooks); }
#if VH_PART == 0
  X("separate flag", true, tiny::optional<P0>)
  X("bool", false, tiny::optional<bool>)
#elif VH_PART == 1
  X("member int sentinel", true, tiny::optional<P0, &P0::m, -1>)
  X("double", false, tiny::optional<double>)
#elif VH_PART == 2
  X("member double", true, tiny::optional<PD, &PD::m>)
  X("int*", false, tiny::optional<int *>)
#elif VH_PART == 3
  X("member bool", true, tiny::optional<PB, &PB::m>)
  X("int sentinel", false, tiny::optional<int, -1>)
#elif VH_PART == 4
  X("member pointer", true, tiny::optional<PP, &PP::m>)
  X("aip unsigned", false, tiny::optional_aip<unsigned>)
#elif VH_PART == 5
  X("optional_inplace", true, tiny::optional_inplace<P0, CMan>)
  X("function pointer", false, tiny::optional<Fn>)
#elif VH_PART == 6
  X("custom manipulator", true, tiny::optional<Whole>)
  X("int", false, tiny::optional<int>)
#elif VH_PART == 7
  X("big payload", true, tiny::optional<Big>)
  X("float", false, tiny::optional<float>)
#elif VH_PART == 8
  X("member sentinel via type", true, tiny::optional_sentinel_via_type<P0, CSV, &P0::m>)
  X("const payload", true, tiny::optional<P0 const>)
  X("const double", false, tiny::optional<double const>)
#endif
  return finish();
}
