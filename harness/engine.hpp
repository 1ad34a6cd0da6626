// Explicit-state explorer that drives a tiny optional and a std::optional of the same payload in lockstep.
//
// World: two slots A and B, each holding one optional object, in guarded, pre-filled memory.
// Transition: one public operation on A (and B), optionally with an exception thrown at the k-th throw point
//             (before or after the payload operation's effect).
// State: all bytes of both subject slots + the observable state of both reference slots.
// Search: breadth-first to closure (every operation and every fault in every reachable state), and additionally
//         all operation sequences up to a depth without state merging (so hidden global state cannot be missed).
#pragma once
#include "track.hpp"

#include <tiny/optional.h>

#include <algorithm>
#include <csignal>
#include <exception>
#include <map>
#include <unistd.h>
#include <unordered_map>

namespace vh
{
inline char gCrashCtx[2048];
inline char gFlavour[128];

[[noreturn]] inline void crashExit(char const * why)
{
  char buf[2600];
  int n = std::snprintf(buf, sizeof buf, "FAIL|CRASH|%s|%s|%s\n", gFlavour, gCrashCtx, why);
  (void)!::write(1, buf, static_cast<std::size_t>(n));
  ::_exit(1);
}
inline void onSignal(int s)
{
  crashExit(
      s == SIGABRT ? "abort() (assertion failed or terminate)"
      : s == SIGALRM ? "did not terminate"
      : s == SIGFPE ? "SIGFPE"
      : s == SIGILL ? "SIGILL"
                    : "invalid memory access");
}
inline void installHandlers()
{
  static char stack[65536];
  stack_t ss{};
  ss.ss_sp = stack;
  ss.ss_size = sizeof stack;
  ::sigaltstack(&ss, nullptr);
  struct sigaction sa
  {
  };
  sa.sa_handler = onSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM}) {
    ::sigaction(s, &sa, nullptr);
  }
  std::set_terminate([] { crashExit("std::terminate() was called"); });
}

struct Obs
{
  long d[160];
  int n = 0;
  void put(long x)
  {
    if (n < 160) {
      d[n++] = x;
    }
  }
  bool operator==(Obs const & o) const { return n == o.n && std::memcmp(d, o.d, sizeof(long) * static_cast<std::size_t>(n)) == 0; }
};

// Memory for one optional object with guards around it. The object is aligned exactly to alignof(O), not more.
template <class O>
struct Slot
{
  static constexpr std::size_t AL = alignof(O);
  static constexpr std::size_t BIG = AL * 2 > 128 ? AL * 2 : 128;
  static constexpr std::size_t OFF = BIG + AL;
  static constexpr std::size_t TOTAL = OFF + sizeof(O) + 128;
  alignas(BIG) unsigned char buf[TOTAL];
  unsigned char guard = 0;

  unsigned char * mem() { return buf + OFF; }
  unsigned char const * mem() const { return buf + OFF; }
  O & obj() { return *std::launder(reinterpret_cast<O *>(mem())); }
  void fill(unsigned char c)
  {
    guard = static_cast<unsigned char>(c ^ 0x3C);
    std::memset(buf, guard, TOTAL);
    scribble(mem(), sizeof(O), c);
  }
  bool intact() const
  {
    for (std::size_t i = 0; i < OFF; ++i) {
      if (buf[i] != guard) {
        return false;
      }
    }
    for (std::size_t i = OFF + sizeof(O); i < TOTAL; ++i) {
      if (buf[i] != guard) {
        return false;
      }
    }
    return true;
  }
};

template <class O_, class T_>
struct Ctx
{
  using O = O_;
  using T = T_;
  static constexpr bool isRef = std::is_same_v<O, std::optional<T>>;
  Slot<O> * s[2];
  Obs out;
  bool hadCtorThrow = false;

  O & a() { return s[0]->obj(); }
  O & b() { return s[1]->obj(); }
  void rec(long x) { out.put(x); }

  // Destroys the object in slot A and constructs a new one by means of f(void* memory).
  template <class F>
  void renew(F && f)
  {
    a().~O();
    afterDestroy();
    construct(std::forward<F>(f));
  }
  template <class F>
  void renewFilled(unsigned char c, F && f)
  {
    a().~O();
    afterDestroy();
    scribble(s[0]->mem(), sizeof(O), c);
    construct(std::forward<F>(f));
  }
  template <class F>
  void construct(F && f)
  {
    try {
      f(static_cast<void *>(s[0]->mem()));
    }
    catch (...) {
      afterDestroy();
      Mute m;
      ::new (static_cast<void *>(s[0]->mem())) O();
      throw;
    }
  }
  void afterDestroy()
  {
    if (isRef) {
      return;
    }
    if (G.liveIn(s[0]->mem(), s[0]->mem() + sizeof(O))) {
      G.err("LIFE", "payload still alive after destruction of (or failed construction of) the optional");
    }
    if (G.flagsIn(s[0]->mem(), s[0]->mem() + sizeof(O))) {
      G.err("FLAG", "empty-flag object not invalidated after destruction of (or failed construction of) the optional");
    }
  }
};

// The domain of a payload: Dom<T>::N argument values, arg(i) of a type convertible to T, make(i) a T, id(t) identifies the value.
template <class T, class = void>
struct Dom;

template <class T_>
struct DomTracked
{
  using T = T_;
  static constexpr bool tracked = true;
  static constexpr bool rawKey = true; // the state includes the raw bytes
  static constexpr bool guide = true;
  static constexpr bool cmpNull = true;
  static constexpr bool eq = true;
  static constexpr bool less = true;
  static constexpr bool ilist = true;
  static constexpr int N = 2;
  static Val arg(int i) { return Val{i + 1}; }
  static T make(int i) { return T(Val{i + 1}); }
  static int id(T const & t) { return t.ok() ? t.get() : -1; }
  static void set(T & t, int i) { t.set(i + 1); }
};

template <class Lay, unsigned NX>
struct Dom<Pay<Lay, NX>> : DomTracked<Pay<Lay, NX>>
{
};

template <class X>
void const * addrOf(X & x)
{
  return const_cast<void const *>(static_cast<void const volatile *>(std::addressof(x)));
}

template <class T>
struct Dom<T const> : Dom<T>
{
};
template <class T>
struct Dom<T volatile> : Dom<T>
{
  static constexpr bool guide = false;
  static void set(T volatile & t, int i) { t = Dom<T>::make(i); }
  static int id(T const volatile & t) { return Dom<T>::id(const_cast<T const &>(t)); }
  static int id(T const & t) { return Dom<T>::id(t); }
};
template <class T>
struct Dom<T const volatile> : Dom<T volatile>
{
};

// Reference semantics of the monadic operations on std::optional ([optional.monadic]); the subject's own members otherwise.
template <class O>
inline constexpr bool isStdOpt = false;
template <class T>
inline constexpr bool isStdOpt<std::optional<T>> = true;

template <class O, class F>
auto doAndThen(O && o, F && f)
{
#if !defined(VH_STD_MONADIC)
  if constexpr (isStdOpt<rcvr<O>>) {
    using R = rcvr<std::invoke_result_t<F, decltype(*std::forward<O>(o))>>;
    if (o.has_value()) {
      return R(std::invoke(std::forward<F>(f), *std::forward<O>(o)));
    }
    return R();
  }
  else
#endif
  {
    return std::forward<O>(o).and_then(std::forward<F>(f));
  }
}
template <class O, class F>
auto doTransform(O && o, F && f)
{
#if !defined(VH_STD_MONADIC)
  if constexpr (isStdOpt<rcvr<O>>) {
    using U = std::remove_cv_t<std::invoke_result_t<F, decltype(*std::forward<O>(o))>>;
    struct Conv
    {
      O && o;
      F && f;
      operator U() { return std::invoke(std::forward<F>(f), *std::forward<O>(o)); }
    };
    struct Unrelated
    {
    };
    if constexpr (std::is_constructible_v<U, Unrelated>) { // would be constructed from Conv itself
      return o.has_value() ? std::optional<U>(std::invoke(std::forward<F>(f), *std::forward<O>(o))) : std::optional<U>();
    }
    else if (o.has_value()) {
      return std::optional<U>(std::in_place, Conv{std::forward<O>(o), std::forward<F>(f)});
    }
    else {
      return std::optional<U>();
    }
  }
  else
#endif
  {
    return std::forward<O>(o).transform(std::forward<F>(f));
  }
}
template <class O, class F>
rcvr<O> doOrElse(O && o, F && f)
{
#if !defined(VH_STD_MONADIC)
  if constexpr (isStdOpt<rcvr<O>>) {
    if (o.has_value()) {
      return std::forward<O>(o);
    }
    return std::forward<F>(f)();
  }
  else
#endif
  {
    return std::forward<O>(o).or_else(std::forward<F>(f));
  }
}

template <class X>
constexpr int catOf()
{
  return (std::is_lvalue_reference_v<X> ? 0 : 2) + (std::is_const_v<std::remove_reference_t<X>> ? 1 : 0);
}

struct Step
{
  short op;
  short k; // fault point (0: none)
  bool late;
};

struct Options
{
  bool faults = true;
  int seqDepth = 2;
  long maxStates = 200000;
  std::vector<int> fills{0x00, 0xFE};
  std::string replay;
  std::string only;
  bool list = false;
  bool noBfs = false;
  bool unwind = false; // run everything from a destructor while an exception is in flight
};

struct Stats
{
  long states = 0, transitions = 0, executions = 0, steps = 0, faultTransitions = 0, sequences = 0, depth = 0, outcomes = 0, ops = 0, throwing = 0, flagCalls = 0;
  bool capped = false;
  std::vector<std::string> samples;
};

template <class S_, class T_>
struct Engine
{
  using S = S_;
  using T = T_;
  using R = std::optional<T>;
  using CS = Ctx<S, T>;
  using CR = Ctx<R, T>;

  struct Op
  {
    std::string name;
    void (*fs)(CS &);
    void (*fr)(CR &);
    int lenient; // 0: exact; 1: extra moves of temporaries are not compared; 2: only states and results are compared
  };
  std::vector<Op> ops;
  Slot<S> ss[2];
  Slot<R> rs[2];
  bool worldUp = false;
  std::string failure;
  Stats st;
  std::unordered_map<std::uint64_t, int> outcomes;
  bool checkAlloc = Dom<T>::tracked;

  template <class F>
  void add(std::string name, F, int lenient = 0)
  {
    Op o;
    o.name = std::move(name);
    o.fs = [](CS & c) { (*fnPtr<F>())(c); };
    o.fr = [](CR & c) { (*fnPtr<F>())(c); };
    o.lenient = lenient;
    ops.push_back(o);
  }
  template <class F>
  static F * fnPtr()
  {
    // The functors are captureless; any properly aligned storage will do.
    alignas(F) static unsigned char storage[sizeof(F)];
    return reinterpret_cast<F *>(storage);
  }

  void setWorld(bool ref)
  {
    for (int i = 0; i < 2; ++i) {
      if (ref) {
        G.slotLo[i] = rs[i].mem();
        G.slotHi[i] = rs[i].mem() + sizeof(R);
      }
      else {
        G.slotLo[i] = ss[i].mem();
        G.slotHi[i] = ss[i].mem() + sizeof(S);
      }
    }
  }

  void start(int fill)
  {
    G.errCat[0] = 0;
    G.errMsg[0] = 0;
    G.nlive = 0;
    G.nflags = 0;
    G.faultAt = 0;
    G.faultPath = false;
    for (int i = 0; i < 2; ++i) {
      ss[i].fill(static_cast<unsigned char>(fill));
      rs[i].fill(static_cast<unsigned char>(fill));
    }
    setWorld(false);
    G.balance = 0;
    G.countAlloc = true;
    for (int i = 0; i < 2; ++i) {
      ::new (static_cast<void *>(ss[i].mem())) S();
    }
    G.countAlloc = false;
    setWorld(true);
    for (int i = 0; i < 2; ++i) {
      ::new (static_cast<void *>(rs[i].mem())) R();
    }
    worldUp = true;
  }

  // Destroys the world; false if something is wrong.
  bool finish()
  {
    setWorld(false);
    G.countAlloc = true;
    for (int i = 0; i < 2; ++i) {
      ss[i].obj().~S();
    }
    G.countAlloc = false;
    if (G.balance) {
      G.err("LIFE", "memory owned by payloads was leaked or freed twice");
    }
    setWorld(true);
    for (int i = 0; i < 2; ++i) {
      rs[i].obj().~R();
    }
    worldUp = false;
    if (!ss[0].intact() || !ss[1].intact()) {
      G.err("CANARY", "bytes outside of the optional were modified");
    }
    if (G.nlive) {
      G.err("LIFE", "payload leaked: still alive after destruction of all optionals");
    }
    if (G.nflags) {
      G.err("FLAG", "empty-flag object never invalidated although its optional was destroyed");
    }
    return !G.errCat[0];
  }

  template <class C>
  int exec(C & c, void (*f)(C &))
  {
    int e = 0;
    try {
      f(c);
    }
    catch (Boom const & bm) {
      e = 1000 + bm.id;
    }
    catch (std::bad_optional_access const &) {
      e = 2;
    }
    catch (std::exception const &) {
      e = 3;
    }
    catch (...) {
      e = 4;
    }
    return e;
  }

  template <class O>
  void observe(O & o, Obs & x)
  {
    O const & co = o;
    bool const h = co.has_value();
    x.put(h);
    x.put(static_cast<bool>(co));
    if (h) {
      x.put(Dom<T>::id(*co));
      auto p = static_cast<unsigned char const *>(addrOf(*co));
      auto lo = reinterpret_cast<unsigned char const *>(std::addressof(o));
      x.put(p >= lo && p + sizeof(T) <= lo + sizeof(O));
      x.put(reinterpret_cast<std::uintptr_t>(p) % alignof(T) == 0);
    }
  }

  static std::string logStr(Event const * l, int n)
  {
    std::string r;
    for (int i = 0; i < n; ++i) {
      r += evName(l[i].kind);
      r += '(';
      r += l[i].loc;
      if (l[i].src != '-') {
        r += std::string("<-") + l[i].src;
      }
      r += ",v=" + std::to_string(l[i].v) + ") ";
    }
    return r;
  }
  static std::string obsStr(Obs const & o)
  {
    std::string r = "[";
    for (int i = 0; i < o.n; ++i) {
      r += std::to_string(o.d[i]) + (i + 1 < o.n ? "," : "");
    }
    return r + "]";
  }

  Event slog[Env::MAXLOG];
  Event rlog[Env::MAXLOG];
  int lastPoints = 0;
  std::uint64_t lastOutcome = 0;
  bool wantOutcome = false;

  // Executes one step in both worlds and compares. Returns false on failure (G.err holds the first error).
  bool step(Step const & s)
  {
    ++st.steps;
    if (s.k) {
      G.faultPath = true;
    }
    Op const & op = ops[static_cast<std::size_t>(s.op)];
    CS cs{{&ss[0], &ss[1]}, {}, false};
    CR cr{{&rs[0], &rs[1]}, {}, false};

    setWorld(false);
    G.clearStep();
    G.faultAt = s.k;
    G.late = s.late;
    long const al0 = G.allocs;
    G.countAlloc = true;
    G.allocFaults = !checkAlloc;
    int const e1 = exec(cs, op.fs);
    G.allocFaults = false;
    G.countAlloc = false;
    int const p1 = G.points;
    bool const allocated = checkAlloc && G.allocs != al0;
    int n1 = 0;
    for (int i = 0; i < G.nlog; ++i) {
      if (!(op.lenient && G.log[i].kind == E_MC && G.log[i].loc == 'T' && G.log[i].src == 'T')) {
        slog[n1++] = G.log[i];
      }
    }

    setWorld(true);
    G.clearStep();
    G.allocFaults = !checkAlloc;
    int const e2 = exec(cr, op.fr);
    G.allocFaults = false;
    int n2 = 0;
    for (int i = 0; i < G.nlog; ++i) {
      if (!(op.lenient && G.log[i].kind == E_MC && G.log[i].loc == 'T' && G.log[i].src == 'T')) {
        rlog[n2++] = G.log[i];
      }
    }
    int const p2 = G.points;
    G.faultAt = 0;
    lastPoints = p1;
    // Operations whose throw points do not line up: only the invariants are checked.
    bool const cmpAll = !((op.lenient == 1 && s.k && p1 != p2) || (op.lenient == 2 && s.k));

    Obs o1, o2;
    {
      Mute m;
      setWorld(false);
      observe(ss[0].obj(), o1);
      observe(ss[1].obj(), o1);
      for (int i = 0; i < 2; ++i) {
        bool const h = ss[i].obj().has_value();
        if (Dom<T>::tracked && G.liveIn(ss[i].mem(), ss[i].mem() + sizeof(S)) != static_cast<int>(h)) {
          G.err("LIFE", h ? "engaged optional without a live payload" : "empty optional with a live payload");
        }
        if (h && G.flagsIn(ss[i].mem(), ss[i].mem() + sizeof(S))) {
          G.err("FLAG", "engaged optional with a live empty-flag object");
        }
      }
      setWorld(true);
      observe(rs[0].obj(), o2);
      observe(rs[1].obj(), o2);
    }
    if (cmpAll) {
      if (e1 != e2) {
        char m[200];
        std::snprintf(m, sizeof m, "exception outcome %d, std::optional %d (0 none, 2 bad_optional_access, 1000+k injected exception k)", e1, e2);
        G.err("EXC", m);
      }
      if (!(o1 == o2)) {
        G.err("STATE", ("state of A and B " + obsStr(o1) + ", std::optional " + obsStr(o2)).c_str());
      }
      if (!(cs.out == cr.out)) {
        G.err("RES", ("observed results " + obsStr(cs.out) + ", std::optional " + obsStr(cr.out)).c_str());
      }
      if (op.lenient != 2 && (n1 != n2 || !std::equal(slog, slog + n1, rlog))) {
        G.err("TRACE", ("payload calls: " + logStr(slog, n1) + "; std::optional: " + logStr(rlog, n2)).c_str());
      }
    }
    if (allocated) {
      G.err("ALLOC", "the library allocated dynamic memory");
    }
    if (!ss[0].intact() || !ss[1].intact()) {
      G.err("CANARY", "bytes outside of the optional were modified");
    }
    if (wantOutcome) {
      std::uint64_t h = 1469598103934665603u;
      auto mix = [&h](long x) { h = (h ^ static_cast<std::uint64_t>(x)) * 1099511628211u; };
      mix(e1);
      for (int i = 0; i < o1.n; ++i) mix(o1.d[i]);
      for (int i = 0; i < cs.out.n; ++i) mix(cs.out.d[i]);
      for (int i = 0; i < n1; ++i) { mix(slog[i].kind); mix(slog[i].loc); mix(slog[i].src); mix(slog[i].v); }
      lastOutcome = h;
    }
    if (!(o1 == o2)) {
      resync = true; // not (or not of interest) a failure: the history is not continued
    }
    return !G.errCat[0];
  }
  bool resync = false;
  bool unwindMode = false;

  std::string key()
  {
    std::string k;
    k.reserve(2 * sizeof(S) + 64);
    if (Dom<T>::rawKey) {
      for (int i = 0; i < 2; ++i) {
        k.append(reinterpret_cast<char const *>(ss[i].mem()), sizeof(S));
      }
    }
    Mute m;
    Obs o;
    observe(rs[0].obj(), o);
    observe(rs[1].obj(), o);
    k.append(reinterpret_cast<char const *>(o.d), sizeof(long) * static_cast<std::size_t>(o.n));
    return k;
  }

  std::string pathStr(int fill, std::vector<Step> const & p) const
  {
    std::string r = "fill=" + std::to_string(fill) + (unwindMode ? " (during unwinding)" : "");
    for (Step const & s : p) {
      r += "; " + ops[static_cast<std::size_t>(s.op)].name;
      if (s.k) {
        r += "@" + std::to_string(s.k) + (s.late ? "L" : "E");
      }
    }
    return r;
  }

  void setCrash(int fill, std::vector<Step> const & p, Step const * extra)
  {
    int n = std::snprintf(gCrashCtx, sizeof gCrashCtx, "fill=%d%s", fill, unwindMode ? " (during unwinding)" : "");
    auto app = [&](Step const & s) {
      if (n < 1900) {
        n += std::snprintf(gCrashCtx + n, sizeof gCrashCtx - static_cast<std::size_t>(n), "; %s", ops[static_cast<std::size_t>(s.op)].name.c_str());
        if (s.k) {
          n += std::snprintf(gCrashCtx + n, sizeof gCrashCtx - static_cast<std::size_t>(n), "@%d%s", s.k, s.late ? "L" : "E");
        }
      }
    };
    for (auto const & s : p) {
      app(s);
    }
    if (extra) {
      app(*extra);
    }
  }

  // Runs the path; returns false and reports on failure.
  bool runPath(int fill, std::vector<Step> const & p)
  {
    start(fill);
    if (!afterStart()) {
      return fail(fill, p);
    }
    for (auto const & s : p) {
      if (!step(s)) {
        return fail(fill, p);
      }
    }
    return true;
  }
  bool afterStart()
  {
    Mute m;
    for (int i = 0; i < 2; ++i) {
      if (ss[i].obj().has_value()) {
        G.err("STATE", "default constructed optional is not empty");
      }
    }
    return !G.errCat[0];
  }

  bool fail(int fill, std::vector<Step> const & p)
  {
    std::printf("FAIL|%s|%s|%s|%s\n", G.errCat, gFlavour, pathStr(fill, p).c_str(), G.errMsg);
    std::fflush(stdout);
    return false;
  }

  struct Node
  {
    std::vector<Step> path;
  };

  bool bfs(Options const & opt, int fill)
  {
    std::unordered_map<std::string, int> seen;
    std::vector<Node> nodes;
    std::vector<Step> empty;
    setCrash(fill, empty, nullptr);
    if (!runPath(fill, empty)) {
      return false;
    }
    seen.emplace(key(), 0);
    nodes.push_back(Node{});
    if (!finish()) {
      return fail(fill, empty);
    }
    wantOutcome = true;
    for (std::size_t n = 0; n < nodes.size(); ++n) {
      for (std::size_t o = 0; o < ops.size(); ++o) {
        int npoints = 0;
        for (int k = 0; k <= (opt.faults ? npoints : 0); ++k) {
          for (int late = 0; late <= (k ? 1 : 0); ++late) {
            Step const s{static_cast<short>(o), static_cast<short>(k), late != 0};
            std::vector<Step> path = nodes[n].path;
            setCrash(fill, path, &s);
            resync = false;
            if (!runPath(fill, path)) {
              return false;
            }
            path.push_back(s);
            if (!step(s)) {
              return fail(fill, path);
            }
            ++st.transitions;
            ++st.executions;
            if (k) {
              ++st.faultTransitions;
            }
            else {
              npoints = lastPoints;
              st.throwing += npoints > 0;
            }
            ++outcomes[lastOutcome];
            bool const skip = resync;
            std::string kk = key();
            if (!finish()) {
              return fail(fill, path);
            }
            if (!skip && seen.emplace(std::move(kk), 0).second) {
              if (static_cast<long>(nodes.size()) >= opt.maxStates) {
                st.capped = true;
              }
              else {
                st.depth = std::max(st.depth, static_cast<long>(path.size()));
                nodes.push_back(Node{path});
                if (st.samples.size() < 3 || (path.size() > 3 && st.samples.size() < 6)) {
                  st.samples.push_back(pathStr(fill, path));
                }
              }
            }
          }
        }
      }
    }
    st.states += static_cast<long>(nodes.size());
    wantOutcome = false;
    return true;
  }

  // All operation sequences of exactly 'depth' operations, no merging.
  bool sequences(int fill, int depth)
  {
    std::vector<Step> p(static_cast<std::size_t>(depth), Step{0, 0, false});
    std::vector<Step> none;
    while (true) {
      setCrash(fill, p, nullptr);
      start(fill);
      for (auto const & s : p) {
        resync = false;
        if (!step(s)) {
          return fail(fill, p);
        }
        if (resync) {
          break;
        }
      }
      ++st.executions;
      if (!finish()) {
        return fail(fill, p);
      }
      ++st.sequences;
      int i = depth - 1;
      while (i >= 0 && ++p[static_cast<std::size_t>(i)].op == static_cast<short>(ops.size())) {
        p[static_cast<std::size_t>(i)].op = 0;
        --i;
      }
      if (i < 0) {
        break;
      }
    }
    return true;
  }

  bool replay(std::string const & text)
  {
    int fill = 0;
    std::vector<Step> p;
    std::size_t pos = 0;
    bool first = true;
    while (pos <= text.size()) {
      std::size_t e = text.find("; ", pos);
      std::string tok = text.substr(pos, e == std::string::npos ? std::string::npos : e - pos);
      if (first) {
        fill = std::atoi(tok.c_str() + 5);
        first = false;
      }
      else {
        Step s{-1, 0, false};
        std::size_t const at = tok.rfind('@');
        std::string name = tok;
        if (at != std::string::npos) {
          name = tok.substr(0, at);
          s.k = static_cast<short>(std::atoi(tok.c_str() + at + 1));
          s.late = tok.back() == 'L';
        }
        for (std::size_t i = 0; i < ops.size(); ++i) {
          if (ops[i].name == name) {
            s.op = static_cast<short>(i);
          }
        }
        if (s.op < 0) {
          std::printf("unknown operation '%s'\n", name.c_str());
          std::exit(2);
        }
        p.push_back(s);
      }
      if (e == std::string::npos) {
        break;
      }
      pos = e + 2;
    }
    setCrash(fill, p, nullptr);
    if (!runPath(fill, p)) {
      return false;
    }
    if (!finish()) {
      return fail(fill, p);
    }
    return true;
  }

  // An exception being in flight (operations executed by a destructor during stack unwinding) must not matter.
  bool run(Options const & opt)
  {
    unwindMode = opt.unwind || opt.replay.find(" (during unwinding)") != std::string::npos;
    if (!unwindMode) {
      return run2(opt);
    }
    bool ok = false;
    struct InDtor
    {
      Engine & e;
      Options const & opt;
      bool & ok;
      ~InDtor() { ok = e.run2(opt); }
    };
    try {
      InDtor d{*this, opt, ok};
      throw 42;
    }
    catch (int) {
    }
    return ok;
  }
  bool run2(Options const & opt)
  {
    st.ops = static_cast<long>(ops.size());
    if (!opt.replay.empty()) {
      return replay(opt.replay);
    }
    for (int f : opt.fills) {
      if (!opt.noBfs && !bfs(opt, f)) {
        return false;
      }
    }
    for (int d = 1; d <= opt.seqDepth; ++d) {
      if (!sequences(opt.fills[0], d)) {
        return false;
      }
    }
    st.outcomes = static_cast<long>(outcomes.size());
    st.flagCalls = G.flagCalls;
    std::printf(
        "STAT|%s|states=%ld|transitions=%ld|executions=%ld|steps=%ld|fault_transitions=%ld|sequences=%ld|max_depth=%ld|ops=%ld|distinct_outcomes=%ld|capped=%d|flag_calls=%ld|sizeof=%zu\n",
        gFlavour, st.states, st.transitions, st.executions, st.steps, st.faultTransitions, st.sequences, st.depth, st.ops, st.outcomes, st.capped ? 1 : 0, st.flagCalls, sizeof(S));
    for (auto const & s : st.samples) {
      std::printf("SAMPLE|%s|%s\n", gFlavour, s.c_str());
    }
    std::fflush(stdout);
    return true;
  }
};
} // namespace vh
