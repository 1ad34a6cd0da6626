// Tracked environment for the explorer: event log, live-object registry, fault (exception) injection,
// flag-manipulator protocol monitor and allocation counter. Uses only the public API of the library.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <memory>
#include <new>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace vh
{
template <class T>
using rcvr = std::remove_cv_t<std::remove_reference_t<T>>;

enum Ev : unsigned char
{
  E_DEF, E_VAL, E_IL, E_CC, E_MC, E_CMC, E_CA, E_MA, E_VA, E_SWAP, E_DTOR, E_CALL, E_CMP, E_MUT
};
inline char const * evName(int e)
{
  static char const * n[] = {"def-ctor", "value-ctor", "ilist-ctor", "copy-ctor", "move-ctor", "const-move-ctor", "copy-assign",
      "move-assign", "value-assign", "swap", "dtor", "callback", "compare", "mutate"};
  return n[e];
}

struct Event
{
  unsigned char kind;
  char loc; // 'A','B' slot, 'T' anything else
  char src; // 'A','B','T' or '-'
  int v;
  bool operator==(Event const & o) const { return kind == o.kind && loc == o.loc && src == o.src && v == o.v; }
};

struct Boom
{
  int id;
};

struct Env
{
  static constexpr int MAXLOG = 512;
  Event log[MAXLOG];
  int nlog = 0;

  struct Live
  {
    unsigned char const * p;
    std::size_t n;
  };
  Live live[64];
  int nlive = 0;
  unsigned char const * flags[64]; // addresses at which an empty-flag object currently exists (custom manipulators)
  int nflags = 0;

  int mute = 0;
  int faultAt = 0; // 1-based index of the fault point that throws; 0: none
  bool late = false;
  int points = 0;
  bool fired = false;
  bool countAlloc = false;
  long allocs = 0;
  long balance = 0; // allocations minus deallocations in the subject's windows
  bool allocFaults = false; // allocations are fault points
  long flagCalls = 0;

  unsigned char const * slotLo[2] = {nullptr, nullptr};
  unsigned char const * slotHi[2] = {nullptr, nullptr};

  // First error of the current execution.
  char errCat[16] = {0};
  char errMsg[256] = {0};

  // Kinds of deviations to report: on histories without and with an injected exception. Null: all.
  char const * cats = nullptr;
  char const * fcats = nullptr;
  bool faultPath = false;

  void err(char const * cat, char const * msg)
  {
    if (errCat[0]) {
      return;
    }
    char const * const wanted = faultPath && fcats ? fcats : cats;
    if (wanted && !std::strstr(wanted, cat)) {
      return;
    }
    std::snprintf(errCat, sizeof errCat, "%s", cat);
    std::snprintf(errMsg, sizeof errMsg, "%s", msg);
  }

  char loc(void const * p) const
  {
    auto q = static_cast<unsigned char const *>(p);
    for (int i = 0; i < 2; ++i) {
      if (slotLo[i] && q >= slotLo[i] && q < slotHi[i]) {
        return static_cast<char>('A' + i);
      }
    }
    return 'T';
  }

  void ev(Ev k, void const * self, void const * src, int v)
  {
    if (mute) {
      return;
    }
    char const l = loc(self);
    if (k == E_DTOR && l == 'T') {
      return;
    }
    if (nlog < MAXLOG) {
      log[nlog++] = Event{static_cast<unsigned char>(k), l, src ? loc(src) : '-', v};
    }
  }

  // Returns true if this fault point must throw.
  bool point()
  {
    if (mute) {
      return false;
    }
    ++points;
    if (points == faultAt) {
      fired = true;
      return true;
    }
    return false;
  }
  [[noreturn]] void boom() { throw Boom{faultAt}; }

  bool isLive(void const * p) const
  {
    for (int i = 0; i < nlive; ++i) {
      if (live[i].p == p) {
        return true;
      }
    }
    return false;
  }
  void needLive(void const * p, char const * what)
  {
    if (!isLive(p)) {
      err("LIFE", what);
    }
  }
  void born(void const * p, std::size_t n)
  {
    auto q = static_cast<unsigned char const *>(p);
    for (int i = 0; i < nlive; ++i) {
      if (q < live[i].p + live[i].n && live[i].p < q + n) {
        err("LIFE", "payload constructed on top of a live payload");
        return;
      }
    }
    for (int i = 0; i < nflags; ++i) {
      if (flags[i] >= q && flags[i] < q + n) {
        err("FLAG", "payload constructed while the empty-flag object has not been invalidated");
        return;
      }
    }
    if (nlive < 64) {
      live[nlive++] = Live{q, n};
    }
    else {
      err("LIFE", "too many live payloads (leak)");
    }
  }
  void dies(void const * p)
  {
    for (int i = 0; i < nlive; ++i) {
      if (live[i].p == p) {
        live[i] = live[--nlive];
        return;
      }
    }
    err("LIFE", "destructor called on an object that is not alive");
  }
  int liveIn(unsigned char const * lo, unsigned char const * hi) const
  {
    int c = 0;
    for (int i = 0; i < nlive; ++i) {
      c += live[i].p >= lo && live[i].p < hi;
    }
    return c;
  }
  int flagsIn(unsigned char const * lo, unsigned char const * hi) const
  {
    int c = 0;
    for (int i = 0; i < nflags; ++i) {
      c += flags[i] >= lo && flags[i] < hi;
    }
    return c;
  }
  void flagInit(void const * p, std::size_t n)
  {
    ++flagCalls;
    auto q = static_cast<unsigned char const *>(p);
    for (int i = 0; i < nlive; ++i) {
      if (q < live[i].p + live[i].n && live[i].p < q + n) {
        err("FLAG", "init_empty_flag() called over a live payload");
        return;
      }
    }
    for (int i = 0; i < nflags; ++i) {
      if (flags[i] == q) {
        err("FLAG", "init_empty_flag() called although the empty-flag object already exists");
        return;
      }
    }
    if (nflags < 64) {
      flags[nflags++] = q;
    }
    else {
      err("FLAG", "too many empty-flag objects (never invalidated)");
    }
  }
  void flagInvalidate(void const * p)
  {
    ++flagCalls;
    auto q = static_cast<unsigned char const *>(p);
    for (int i = 0; i < nflags; ++i) {
      if (flags[i] == q) {
        flags[i] = flags[--nflags];
        return;
      }
    }
    err("FLAG", "invalidate_empty_flag() called without an existing empty-flag object");
  }

  void clearStep()
  {
    nlog = 0;
    points = 0;
    fired = false;
  }
};
inline Env G;

struct Mute
{
  Mute() { ++G.mute; }
  ~Mute() { --G.mute; }
  Mute(Mute const &) = delete;
};

// Argument type used to construct tracked payloads from a "different" type.
struct Val
{
  int i;
};

// Value category and constness in which an argument arrived; part of the event trace.
template <class U>
constexpr int argTag()
{
  constexpr bool c = std::is_const_v<std::remove_reference_t<U>>;
  return 1000 * ((std::is_lvalue_reference_v<U> ? 1 : 3) + c);
}
template <class U>
using IfVal = std::enable_if_t<std::is_same_v<std::remove_cv_t<std::remove_reference_t<U>>, Val>, int>;
template <class U>
using IfInt = std::enable_if_t<std::is_same_v<std::remove_cv_t<std::remove_reference_t<U>>, int>, int>;

inline void scribble(void * p, std::size_t n, unsigned char c)
{
  auto volatile * q = static_cast<unsigned char volatile *>(p);
  for (std::size_t i = 0; i < n; ++i) {
    q[i] = c;
  }
}

constexpr int MOVED = 77;
inline int fold(int x) { return (x + 1) % 2 + 1; } // keeps the value domain small: 1, 2

// noexcept mask bits
enum : unsigned
{
  NX_VAL = 1, NX_CC = 2, NX_MC = 4, NX_CA = 8, NX_MA = 16, NX_VA = 32, NX_SWAP = 64, NX_DEF = 128, NX_ALL = 255
};

// The tracked payload. Lay describes the member 'm' (which may serve as emptiness flag) and the size.
template <class Lay, unsigned NX>
struct alignas(Lay::ALIGN) Pay
{
  using M = typename Lay::M;
  int pre;
  M m;
  int v;
  unsigned char tail[Lay::TAIL];

  void put(int x) noexcept
  {
    pre = x * 31 + 7;
    M const g = Lay::good(x);
    // Raw copy so that no bit pattern is touched on the way.
    std::memcpy(const_cast<void *>(static_cast<void const volatile *>(std::addressof(m))), &g, sizeof(M));
    v = x;
    for (std::size_t i = 0; i < Lay::TAIL; ++i) {
      tail[i] = static_cast<unsigned char>(x * 7 + static_cast<int>(i) + 3);
    }
  }
  bool ok() const noexcept
  {
    M const g = Lay::good(v);
    if (pre != v * 31 + 7 || std::memcmp(const_cast<void const *>(static_cast<void const volatile *>(std::addressof(m))), &g, Lay::CMP) != 0) {
      return false;
    }
    for (std::size_t i = 0; i < Lay::TAIL; ++i) {
      if (tail[i] != static_cast<unsigned char>(v * 7 + static_cast<int>(i) + 3)) {
        return false;
      }
    }
    return true;
  }

  template <class F>
  void construct(Ev k, void const * src, int x, bool canThrow, F && after, int tag = 0)
  {
    bool const hit = canThrow && G.point();
    G.ev(k, this, src, x + tag);
    if (hit && !G.late) {
      G.boom();
    }
    put(x);
    if (hit) {
      G.boom(); // The memory is already modified, but the object never comes to life.
    }
    G.born(this, sizeof *this);
    after();
  }
  template <class F>
  void assign(Ev k, void const * src, int x, bool canThrow, F && after, int tag = 0)
  {
    G.needLive(this, "assignment to a payload that is not alive");
    bool const hit = canThrow && G.point();
    G.ev(k, this, src, x + tag);
    if (hit && !G.late) {
      G.boom();
    }
    put(x);
    after();
    if (hit) {
      G.boom();
    }
  }

  Pay() noexcept((NX & NX_DEF) != 0)
  {
    construct(E_DEF, nullptr, 2, !(NX & NX_DEF), [] {});
  }
  template <class U, IfVal<U> = 0>
  Pay(U && x) noexcept((NX & NX_VAL) != 0)
  {
    construct(E_VAL, nullptr, x.i, !(NX & NX_VAL), [] {}, argTag<U>());
  }
  template <class U, class I, IfVal<U> = 0, IfInt<I> = 0>
  Pay(U && x, I && y) noexcept((NX & NX_VAL) != 0)
  {
    construct(E_VAL, nullptr, fold(x.i + y), !(NX & NX_VAL), [] {}, argTag<U>() + 10 * argTag<I>());
  }
  Pay(std::initializer_list<int> il) noexcept((NX & NX_DEF) != 0) : Pay(il, 0) { }
  template <class I, IfInt<I> = 0>
  Pay(std::initializer_list<int> il, I && y) noexcept((NX & NX_DEF) != 0)
  {
    int s = y;
    for (int i : il) {
      s += i;
    }
    construct(E_IL, nullptr, fold(s), !(NX & NX_DEF), [] {}, argTag<I>());
  }
  Pay(Pay const & o) noexcept((NX & NX_CC) != 0)
  {
    G.needLive(&o.pre_(), "copy construction from a payload that is not alive");
    construct(E_CC, std::addressof(o), o.v, !(NX & NX_CC), [] {});
  }
  Pay(Pay && o) noexcept((NX & NX_MC) != 0)
  {
    G.needLive(&o.pre_(), "move construction from a payload that is not alive");
    construct(E_MC, std::addressof(o), o.v, !(NX & NX_MC), [&] { o.put(MOVED); });
  }
  Pay & operator=(Pay const & o) noexcept((NX & NX_CA) != 0)
  {
    G.needLive(&o.pre_(), "copy assignment from a payload that is not alive");
    assign(E_CA, std::addressof(o), o.v, !(NX & NX_CA), [] {});
    return *this;
  }
  Pay & operator=(Pay && o) noexcept((NX & NX_MA) != 0)
  {
    G.needLive(&o.pre_(), "move assignment from a payload that is not alive");
    assign(E_MA, std::addressof(o), o.v, !(NX & NX_MA), [&] {
      if (std::addressof(o) != this) {
        o.put(MOVED);
      }
    });
    return *this;
  }
  template <class U, IfVal<U> = 0>
  Pay & operator=(U && x) noexcept((NX & NX_VA) != 0)
  {
    assign(E_VA, nullptr, x.i, !(NX & NX_VA), [] {}, argTag<U>());
    return *this;
  }
  ~Pay()
  {
    G.ev(E_DTOR, this, nullptr, v);
    G.dies(this);
    scribble(this, sizeof *this, 0xDB);
  }
  friend void swap(Pay & a, Pay & b) noexcept((NX & NX_SWAP) != 0)
  {
    G.needLive(&a.pre_(), "swap of a payload that is not alive");
    G.needLive(&b.pre_(), "swap of a payload that is not alive");
    bool const hit = !(NX & NX_SWAP) && G.point();
    G.ev(E_SWAP, std::addressof(a), std::addressof(b), a.v * 100 + b.v);
    if (hit && !G.late) {
      G.boom();
    }
    int const t = a.v;
    a.put(b.v);
    b.put(t);
    if (hit) {
      G.boom();
    }
  }
  void set(int x)
  {
    G.needLive(this, "mutation of a payload that is not alive");
    G.ev(E_MUT, this, nullptr, x);
    put(x);
  }
  int get() const
  {
    G.needLive(this, "read of a payload that is not alive");
    return v;
  }

  static bool cmp(int k, Pay const & a, Pay const & b, bool r)
  {
    G.needLive(&a.pre_(), "comparison of a payload that is not alive");
    G.needLive(&b.pre_(), "comparison of a payload that is not alive");
    G.ev(E_CMP, std::addressof(a), std::addressof(b), k);
    if (G.point()) {
      G.boom();
    }
    return r;
  }
  friend bool operator==(Pay const & a, Pay const & b) { return cmp(0, a, b, a.v == b.v); }
  friend bool operator!=(Pay const & a, Pay const & b) { return cmp(1, a, b, a.v != b.v); }
  friend bool operator<(Pay const & a, Pay const & b) { return cmp(2, a, b, a.v < b.v); }
  friend bool operator<=(Pay const & a, Pay const & b) { return cmp(3, a, b, a.v <= b.v); }
  friend bool operator>(Pay const & a, Pay const & b) { return cmp(4, a, b, a.v > b.v); }
  friend bool operator>=(Pay const & a, Pay const & b) { return cmp(5, a, b, a.v >= b.v); }

  int const & pre_() const { return pre; } // same address as the object
};
} // namespace vh

void * operator new(std::size_t n)
{
  if (vh::G.countAlloc) {
    ++vh::G.allocs;
    ++vh::G.balance;
  }
  if (vh::G.allocFaults && vh::G.point()) {
    if (vh::G.countAlloc) {
      --vh::G.balance;
    }
    throw std::bad_alloc();
  }
  void * p = std::malloc(n ? n : 1);
  if (!p) {
    std::abort();
  }
  return p;
}
void operator delete(void * p) noexcept
{
  if (vh::G.countAlloc && p) {
    --vh::G.balance;
  }
  std::free(p);
}
void operator delete(void * p, std::size_t) noexcept { ::operator delete(p); }
