// C10: monadic operations. Every combination of representation x state x value category of the optional x callable x
// value category of the callable x result type x {returns, throws}; the callable records how it was called.
#include "common.hpp"
using namespace vh;

enum Cat { L, CL, R, CR, NONE }; // value category and constness
static char const * catN[] = {"&", "const&", "&&", "const&&", "none"};

struct Boom { int id; };
struct Rec
{
  int calls = 0;
  Cat arg = NONE, self = NONE;
  void const * addr = nullptr;
  void const * res = nullptr; // address of the result object at its construction
  int copies = 0, moves = 0;  // of result objects
  bool boom = false;
};
static Rec G;

template <class A>
constexpr Cat catOf()
{
  constexpr bool c = std::is_const_v<std::remove_reference_t<A>>;
  return std::is_lvalue_reference_v<A> ? (c ? CL : L) : (c ? CR : R);
}

// ---- payloads ------------------------------------------------------------------------------------------------------
template <class O> struct Flavour { };
struct P
{
  int m;
  double d = 1.5;
  std::optional<int> so{7};
  tiny::optional<double> to{2.5};
  explicit P(int i) : m(i) { }
  static inline int copied = 0;
  P(P const & o) : m(o.m), d(o.d), so(o.so), to(o.to) { ++copied; }
  P(P && o) noexcept : m(o.m), d(o.d), so(o.so), to(o.to) { o.d = -1.0; }
  P & operator=(P const &) = default;
  P & operator=(P && o) noexcept { m = o.m; d = o.d; so = o.so; to = o.to; o.d = -1.0; return *this; }
  bool operator==(P const & o) const { return m == o.m && d == o.d; }

  int fc() const { note(this, CL); return 41; }
  int fl() & { note(this, L); return 42; }
  int fr() && { note(this, R); return 43; }
  int fcr() const && { note(this, CR); return 44; }
  std::optional<int> oc() const { note(this, CL); return 45; }
  tiny::optional<int, -1> ol() & { note(this, L); return tiny::optional<int, -1>(46); }
  tiny::optional<int, -1> orr() && { note(this, R); return tiny::optional<int, -1>(47); }
  static void note(void const * t, Cat c)
  {
    ++G.calls;
    G.arg = c;
    G.addr = t;
    if (G.boom) throw Boom{5};
  }
};
struct MO // move-only payload
{
  int m;
  bool from = false;
  explicit MO(int i) : m(i) { }
  MO(MO && o) noexcept : m(o.m) { o.from = true; }
  MO & operator=(MO && o) noexcept { m = o.m; o.from = true; return *this; }
  bool operator==(MO const & o) const { return m == o.m; }
};
struct Pinned // payload that can neither be moved nor copied
{
  int m;
  explicit Pinned(int i) : m(i) { }
  Pinned(Pinned const &) = delete;
  bool operator==(Pinned const & o) const { return m == o.m; }
};
struct Man
{
  static bool is_empty(P const & p) noexcept { int x; std::memcpy(&x, &p, 4); return x == -77; }
  static void init_empty_flag(P & p) noexcept { int const x = -77; std::memcpy(static_cast<void *>(&p), &x, 4); }
  static void invalidate_empty_flag(P &) noexcept { }
};
struct SV { static constexpr int value = -9; };

// ---- results -------------------------------------------------------------------------------------------------------
struct RC // copyable, counting
{
  int v;
  explicit RC(int i) : v(i) { G.res = this; }
  RC(RC const & o) : v(o.v) { ++G.copies; }
  RC(RC && o) noexcept : v(o.v) { ++G.moves; }
};
struct RI // immovable
{
  int v;
  explicit RI(int i) : v(i) { G.res = this; }
  RI(RI const &) = delete;
};
template <class U> U mk();
template <> inline int mk<int>() { return 11; }
template <> inline double mk<double>() { return 12.5; }
template <> inline float mk<float>() { return 1.25f; }
template <> inline bool mk<bool>() { return true; }
static int gObj;
template <> inline int * mk<int *>() { return &gObj; }
template <> inline RC mk<RC>() { return RC(13); }
template <> inline RC const mk<RC const>() { return RC(14); }
template <> inline RI mk<RI>() { return RI(15); }
template <> inline std::unique_ptr<int> mk<std::unique_ptr<int>>() { return std::make_unique<int>(16); }
template <> inline std::optional<int> mk<std::optional<int>>() { return 17; }
template <> inline tiny::optional<double> mk<tiny::optional<double>>() { return 18.5; }
template <> inline std::string mk<std::string>() { return "nineteen, long enough to be allocated"; }
template <class U> bool good(U const & u) { U x = mk<U>(); return u == x; }
inline bool good(RC const & u) { return u.v == 13 || u.v == 14; }
inline bool good(RI const & u) { return u.v == 15; }
inline bool good(std::unique_ptr<int> const & u) { return u && *u == 16; }
template <class U> struct Addressed : std::false_type { };
template <> struct Addressed<RC> : std::true_type { };
template <> struct Addressed<RI> : std::true_type { };

// ---- callables -----------------------------------------------------------------------------------------------------
template <class U, class A>
U body(Cat self, A && a)
{
  ++G.calls;
  G.self = self;
  G.arg = catOf<A &&>();
  G.addr = std::addressof(a);
  if (G.boom) throw Boom{6};
  return mk<std::conditional_t<std::is_same_v<U, RC const>, RC const, U>>();
}
// Ref-qualified call operators: each overload knows how the callable itself was used.
template <class U>
struct Fun
{
  template <class A> U operator()(A && a) & { return body<U>(L, std::forward<A>(a)); }
  template <class A> U operator()(A && a) const & { return body<U>(CL, std::forward<A>(a)); }
  template <class A> U operator()(A && a) && { return body<U>(R, std::forward<A>(a)); }
  template <class A> U operator()(A && a) const && { return body<U>(CR, std::forward<A>(a)); }
};
// The same, declared noexcept (the library has separate code for callables that cannot throw).
template <class U>
struct NFun
{
  template <class A> U operator()(A && a) & noexcept { return body<U>(L, std::forward<A>(a)); }
  template <class A> U operator()(A && a) const & noexcept { return body<U>(CL, std::forward<A>(a)); }
  template <class A> U operator()(A && a) && noexcept { return body<U>(R, std::forward<A>(a)); }
  template <class A> U operator()(A && a) const && noexcept { return body<U>(CR, std::forward<A>(a)); }
};
// noexcept only in one way of calling it: the library must look at the way it is really called.
template <class U>
struct HalfN
{
  template <class A> U operator()(A && a) & { return body<U>(L, std::forward<A>(a)); }
  template <class A> U operator()(A && a) const & noexcept(std::is_const_v<std::remove_reference_t<A>>) { return body<U>(CL, std::forward<A>(a)); }
  template <class A> U operator()(A && a) && noexcept(!std::is_lvalue_reference_v<A>) { return body<U>(R, std::forward<A>(a)); }
  template <class A> U operator()(A && a) const && { return body<U>(CR, std::forward<A>(a)); }
};
// Only callable as an rvalue and not copyable.
template <class U>
struct OnlyR
{
  std::unique_ptr<int> p = std::make_unique<int>(1);
  template <class A> U operator()(A && a) && { return body<U>(R, std::forward<A>(a)); }
};
// Only callable with exactly one argument category.
template <class U, class T>
struct OnlyArgL
{
  U operator()(T & a) const { return body<U>(CL, a); }
  U operator()(T const &) const = delete;
  U operator()(T &&) const = delete;
};
template <class U, class T>
struct OnlyArgR
{
  U operator()(T && a) const { return body<U>(CL, std::move(a)); }
  U operator()(T const & a) const = delete;
};

template <Cat C, class O>
decltype(auto) as(O & o)
{
  if constexpr (C == L) return static_cast<O &>(o);
  else if constexpr (C == CL) return static_cast<O const &>(o);
  else if constexpr (C == R) return static_cast<O &&>(o);
  else return static_cast<O const &&>(o);
}
template <Cat C, class F>
decltype(auto) asF(F & f) { return as<C>(f); }

// Category in which the stored value is passed: a const payload is const always.
template <class T> constexpr Cat adj(Cat c) { return std::is_const_v<T> ? (c == L ? CL : c == R ? CR : c) : c; }

struct Case
{
  std::string rep, op;
  bool eng;
  Cat oc;
};
static void bad(Case const & c, std::string const & msg)
{
  fail("MONAD", "mono=" + c.rep + " " + (c.eng ? "engaged" : "empty") + " as " + catN[c.oc] + " " + c.op, msg);
}

// What happened is compared with what the standard prescribes.
template <class O, class Chk>
void judge(Case const & c, O & o, bool shouldCall, Cat arg, Cat self, bool threw, void const * addr, bool stateSame, Chk chk)
{
  ++gC.transitions;
  if (G.calls != (shouldCall ? 1 : 0)) { bad(c, "callable was called " + std::to_string(G.calls) + " times"); return; }
  if (threw != (shouldCall && G.boom)) { bad(c, threw ? "unexpected exception" : "the callable's exception got lost"); return; }
  if (shouldCall && arg != NONE && G.arg != arg) bad(c, std::string("argument is ") + catN[G.arg] + " instead of " + catN[arg]);
  if (shouldCall && arg != NONE && G.addr != addr) bad(c, "the argument is not the stored value itself");
  if (shouldCall && self != NONE && G.self != self) bad(c, std::string("callable invoked as ") + catN[G.self] + " instead of " + catN[self]);
  if (!stateSame) bad(c, "the optional changed");
  (void)o;
  if (!threw) chk();
}

template <class O, Cat OC, class F, class U, bool AndThen>
void run1(Case c, O & o, F && f, Cat self, Cat argOverride = NONE)
{
  using T = typename O::value_type;
  bool const eng = o.has_value();
  void const * addr = eng ? static_cast<void const *>(std::addressof(*o)) : nullptr;
  alignas(O) unsigned char before[sizeof(O)];
  std::memcpy(before, static_cast<void const *>(&o), sizeof(O));
  Cat const arg = argOverride == NONE ? adj<T>(OC) : argOverride;
  for (int boom = 0; boom < 2; ++boom) {
    if (boom && self == R && !std::is_empty_v<rcvr<F>>) {
      // the callable object may only be used once
    }
    if constexpr (std::is_invocable_v<F, decltype(*as<OC>(o))>) {
      if (boom && std::is_nothrow_invocable_v<F, decltype(*as<OC>(o))>) continue; // must not throw
    }
    G = Rec{};
    G.boom = boom != 0;
    gCtx = "mono=" + c.rep + " " + c.op;
    bool threw = false;
    bool hasR = false, valR = false, inPlace = true, typeOk = true;
    try {
      if constexpr (AndThen) {
        auto r = as<OC>(o).and_then(static_cast<F &&>(f));
        typeOk = std::is_same_v<decltype(r), U>;
        hasR = r.has_value();
        valR = hasR && *r == *mk<U>();
      }
      else {
        auto && r = as<OC>(o).transform(static_cast<F &&>(f));
        using RT = rcvr<decltype(r)>;
        typeOk = std::is_same_v<RT, tiny::optional<std::remove_cv_t<U>>> && !std::is_lvalue_reference_v<decltype(as<OC>(o).transform(static_cast<F &&>(f)))>;
        hasR = r.has_value();
        valR = hasR && good(*r);
        if constexpr (Addressed<std::remove_cv_t<U>>::value) {
          inPlace = !hasR || G.res == std::addressof(*r);
        }
      }
    }
    catch (Boom const & b) {
      threw = true;
      if (b.id != 6) bad(c, "another exception");
    }
    catch (...) {
      threw = true;
      bad(c, "exception of another type");
    }
    bool const same = std::memcmp(before, static_cast<void const *>(&o), sizeof(O)) == 0 && o.has_value() == eng;
    judge(c, o, eng, arg, self, threw, addr, same, [&] {
      if (!typeOk) bad(c, "the result has the wrong type");
      if (hasR != eng) bad(c, hasR ? "the result is engaged" : "the result is empty");
      else if (eng && !valR) bad(c, "the result has the wrong value");
      if (!inPlace || G.copies || G.moves) bad(c, "the result was not constructed in place (copies " + std::to_string(G.copies) + ", moves " + std::to_string(G.moves) + ")");
    });
    if constexpr (!std::is_lvalue_reference_v<F> && !std::is_empty_v<rcvr<F>>) {
      break;
    }
  }
}

// All value categories of one functor.
template <class O, Cat OC, class U, bool AT>
void funs(Case c, O & o, char const * un)
{
  using T = typename O::value_type;
  Fun<U> f;
  auto nm = [&](char const * k) { c.op = std::string(AT ? "and_then" : "transform") + " functor " + k + " -> " + un; return c; };
  run1<O, OC, Fun<U> &, U, AT>(nm("&"), o, f, L);
  run1<O, OC, Fun<U> const &, U, AT>(nm("const&"), o, f, CL);
  run1<O, OC, Fun<U>, U, AT>(nm("&&"), o, std::move(f), R);
  run1<O, OC, Fun<U> const, U, AT>(nm("const&&"), o, std::move(std::as_const(f)), CR);
  NFun<U> nf;
  run1<O, OC, NFun<U> &, U, AT>(nm("noexcept &"), o, nf, L);
  run1<O, OC, NFun<U> const &, U, AT>(nm("noexcept const&"), o, nf, CL);
  run1<O, OC, NFun<U>, U, AT>(nm("noexcept &&"), o, std::move(nf), R);
  run1<O, OC, NFun<U> const, U, AT>(nm("noexcept const&&"), o, std::move(std::as_const(nf)), CR);
  HalfN<U> hf;
  run1<O, OC, HalfN<U> &, U, AT>(nm("partly noexcept &"), o, hf, L);
  run1<O, OC, HalfN<U> const &, U, AT>(nm("partly noexcept const&"), o, hf, CL);
  run1<O, OC, HalfN<U>, U, AT>(nm("partly noexcept &&"), o, std::move(hf), R);
  run1<O, OC, HalfN<U> const, U, AT>(nm("partly noexcept const&&"), o, std::move(std::as_const(hf)), CR);
  run1<O, OC, OnlyR<U>, U, AT>(nm("move-only &&"), o, OnlyR<U>{}, R);
  if constexpr (OC == L && !std::is_const_v<T>) {
    OnlyArgL<U, T> g;
    run1<O, OC, OnlyArgL<U, T> const &, U, AT>(nm("accepting T& only"), o, g, CL);
  }
  if constexpr (OC == R && !std::is_const_v<T>) {
    OnlyArgR<U, T> g;
    run1<O, OC, OnlyArgR<U, T> const &, U, AT>(nm("accepting T&& only"), o, g, CL);
  }
  // lambdas
  int n = 0;
  auto lam = [n](auto && a) mutable -> U { ++n; return body<U>(NONE, static_cast<decltype(a)>(a)); };
  run1<O, OC, decltype(lam) &, U, AT>(nm("mutable lambda"), o, lam, NONE);
  auto ref = std::ref(f);
  run1<O, OC, decltype(ref) &, U, AT>(nm("reference_wrapper"), o, ref, L);
}
template <class U, class T> U freeFn(T const & t) { return body<U>(NONE, t); }
template <class U, class T> U freeFnR(T && t) { return body<U>(NONE, std::move(t)); }

template <class O, Cat OC>
void allResults(Case const & c, O & o)
{
  using T = typename O::value_type;
  funs<O, OC, int, false>(c, o, "int");
  funs<O, OC, double, false>(c, o, "double");
  funs<O, OC, bool, false>(c, o, "bool");
  funs<O, OC, RC, false>(c, o, "class");
  funs<O, OC, RI, false>(c, o, "immovable");
  funs<O, OC, std::unique_ptr<int>, false>(c, o, "unique_ptr");
#ifdef VH_WIDE
  funs<O, OC, float, false>(c, o, "float");
  funs<O, OC, RC const, false>(c, o, "const class");
  funs<O, OC, int *, false>(c, o, "int*");
  funs<O, OC, std::optional<int>, false>(c, o, "std::optional<int>");
  funs<O, OC, tiny::optional<double>, false>(c, o, "tiny::optional<double>");
  funs<O, OC, std::string, false>(c, o, "string");
#endif
  funs<O, OC, std::optional<int>, true>(c, o, "std::optional<int>");
  funs<O, OC, tiny::optional<double>, true>(c, o, "tiny::optional<double>");
  Case k = c;
  // functions
  k.op = "transform function&";
  run1<O, OC, int (&)(T const &), int, false>(k, o, freeFn<int, T>, NONE, CL);
  k.op = "transform function pointer";
  run1<O, OC, int (*)(T const &), int, false>(k, o, &freeFn<int, T>, NONE, CL);
  k.op = "and_then function&";
  run1<O, OC, std::optional<int> (&)(T const &), std::optional<int>, true>(k, o, freeFn<std::optional<int>, T>, NONE, CL);
  k.op = "transform std::function";
  {
    std::function<int(T const &)> f = freeFn<int, T>;
    run1<O, OC, std::function<int(T const &)> &, int, false>(k, o, f, NONE, CL);
  }
  if constexpr (OC == R && !std::is_const_v<T>) {
    k.op = "transform function taking T&&";
    run1<O, OC, int (&)(T &&), int, false>(k, o, freeFnR<int, T>, NONE, R);
  }
}

// Pointers to members.
template <class O, Cat OC, class M, class Chk>
void mem1(Case c, O & o, M m, Cat arg, char const * n, bool andThen, Chk chk)
{
  (void)andThen;
  bool const eng = o.has_value();
  void const * addr = eng ? static_cast<void const *>(std::addressof(*o)) : nullptr;
  for (int boom = 0; boom < 2; ++boom) {
    G = Rec{};
    G.boom = boom != 0;
    c.op = n;
    gCtx = "mono=" + c.rep + " " + c.op;
    bool threw = false;
    std::string why;
    try {
      why = chk(m);
    }
    catch (Boom const & b) {
      threw = true;
      if (b.id != 5) bad(c, "another exception");
    }
    judge(c, o, eng, arg, NONE, threw, addr, o.has_value() == eng, [&] { if (!why.empty()) bad(c, why); });
  }
}
template <class O, Cat OC>
void members(Case const & c, O & o)
{
  using T = typename O::value_type;
  constexpr bool k = std::is_const_v<T>;
  auto expect = [&](auto const & r, int v) -> std::string {
    if (r.has_value() != o.has_value()) return "wrong emptiness of the result";
    if (r.has_value() && *r != v) return "wrong value";
    return "";
  };
  mem1<O, OC>(c, o, &P::fc, CL, "transform(&P::f const)", false, [&](auto m) { return expect(as<OC>(o).transform(m), 41); });
  mem1<O, OC>(c, o, &P::oc, CL, "and_then(&P::f const)", true, [&](auto m) { return expect(as<OC>(o).and_then(m), 45); });
  if constexpr (OC == L && !k) {
    mem1<O, OC>(c, o, &P::fl, L, "transform(&P::f &)", false, [&](auto m) { return expect(as<OC>(o).transform(m), 42); });
    mem1<O, OC>(c, o, &P::ol, L, "and_then(&P::f &)", true, [&](auto m) { return expect(as<OC>(o).and_then(m), 46); });
  }
  if constexpr (OC == R && !k) {
    mem1<O, OC>(c, o, &P::fr, R, "transform(&P::f &&)", false, [&](auto m) { return expect(as<OC>(o).transform(m), 43); });
    mem1<O, OC>(c, o, &P::orr, R, "and_then(&P::f &&)", true, [&](auto m) { return expect(as<OC>(o).and_then(m), 47); });
  }
  if constexpr (OC == R || OC == CR) {
    mem1<O, OC>(c, o, &P::fcr, CR, "transform(&P::f const&&)", false, [&](auto m) { return expect(as<OC>(o).transform(m), 44); });
  }
  // Pointers to data members that are optionals.
  {
    Case q = c;
    q.op = "and_then(&P::so)";
    ++gC.transitions;
    bool const eng = o.has_value();
    auto r = as<OC>(o).and_then(&P::so);
    static_assert(std::is_same_v<decltype(r), std::optional<int>>);
    if (r.has_value() != eng || (eng && *r != 7)) bad(q, "wrong result");
    q.op = "and_then(&P::to)";
    ++gC.transitions;
    auto r2 = as<OC>(o).and_then(&P::to);
    static_assert(std::is_same_v<decltype(r2), tiny::optional<double>>);
    if (r2.has_value() != eng || (eng && *r2 != 2.5)) bad(q, "wrong result");
  }
}

// or_else
template <class O>
struct OrF
{
  O make() const
  {
    ++G.calls;
    if (G.boom) throw Boom{8};
    return O(std::in_place, 3);
  }
  O operator()() & { G.self = L; return make(); }
  O operator()() const & { G.self = CL; return make(); }
  O operator()() && { G.self = R; return make(); }
  O operator()() const && { G.self = CR; return make(); }
};
template <class O>
struct OrEmpty
{
  O operator()() const { ++G.calls; if (G.boom) throw Boom{8}; return O(std::nullopt); }
};
template <class O>
struct OrRef
{
  O * p;
  O & operator()() const { ++G.calls; if (G.boom) throw Boom{8}; return *p; }
};
template <class O>
struct OrCRef
{
  O * p;
  O const & operator()() const { ++G.calls; if (G.boom) throw Boom{8}; return *p; }
};
template <class O>
struct OrRRef
{
  O * p;
  O && operator()() const { ++G.calls; if (G.boom) throw Boom{8}; return std::move(*p); }
};
template <class O>
struct OrCRRef
{
  O * p;
  O const && operator()() const { ++G.calls; if (G.boom) throw Boom{8}; return std::move(*p); }
};
template <class O>
struct OrConst
{
  O const operator()() const { ++G.calls; if (G.boom) throw Boom{8}; return O(std::in_place, 9); }
};
#if __cplusplus >= 202002L
template <class O, Cat OC, class F>
void or1(Case c, bool eng, F && f, Cat self, int expect, char const * n)
{
  using T = typename O::value_type;
  for (int boom = 0; boom < 2; ++boom) {
    O o;
    if (eng) o.emplace(5);
    G = Rec{};
    G.boom = boom != 0;
    c.op = std::string("or_else ") + n;
    c.eng = eng;
    gCtx = "mono=" + c.rep + " " + c.op;
    ++gC.executions;
    bool threw = false, hasR = false, valR = false, typeOk = true;
    P::copied = 0;
    try {
      auto && r = as<OC>(o).or_else(static_cast<F &&>(f));
      typeOk = std::is_same_v<rcvr<decltype(r)>, O> && !std::is_lvalue_reference_v<decltype(as<OC>(o).or_else(static_cast<F &&>(f)))>;
      hasR = r.has_value();
      valR = hasR && *r == T(eng ? 5 : expect);
    }
    catch (Boom const & b) {
      threw = true;
      if (b.id != 8) bad(c, "another exception");
    }
    bool same = o.has_value() == eng;
    if (eng && OC != R && !(*o == T(5))) same = false;
    if constexpr (std::is_same_v<T, P>) {
      // An rvalue optional hands its value over (no copy, the source is moved from); otherwise exactly one copy is made.
      if (eng && OC == R && (P::copied != 0 || (o.has_value() && o->d != -1.0))) bad(c, "the value of an rvalue was copied instead of moved");
      if (!eng && std::is_same_v<std::remove_cv_t<std::remove_reference_t<F>>, OrRRef<O>> && P::copied != 0) bad(c, "the result of the callable was copied instead of moved");
      if (eng && OC != R && P::copied != 1) bad(c, "the value was copied " + std::to_string(P::copied) + " times");
    }
    judge(c, o, !eng, NONE, self, threw, nullptr, same, [&] {
      if (!typeOk) bad(c, "the result has the wrong type");
      if (hasR != (eng || expect >= 0)) bad(c, hasR ? "the result is engaged" : "the result is empty");
      else if (hasR && !valR) bad(c, "the result has the wrong value");
    });
  }
}
template <class O, Cat OC>
void ors(Case const & c)
{
  using T = typename O::value_type;
  for (int e = 0; e < 2; ++e) {
    OrF<O> f;
    or1<O, OC, OrF<O> &>(c, e, f, L, 3, "functor &");
    or1<O, OC, OrF<O> const &>(c, e, f, CL, 3, "functor const&");
    or1<O, OC, OrF<O>>(c, e, std::move(f), R, 3, "functor &&");
    or1<O, OC, OrF<O> const>(c, e, std::move(std::as_const(f)), CR, 3, "functor const&&");
    {
      O x(std::in_place, 9);
      or1<O, OC, OrRRef<O>>(c, e, OrRRef<O>{&x}, NONE, 9, "returning an rvalue reference");
    }
    or1<O, OC, OrEmpty<O>>(c, e, OrEmpty<O>{}, NONE, -1, "returning an empty one");
    if constexpr (std::is_copy_constructible_v<T>) {
      O x(std::in_place, 9);
      or1<O, OC, OrRef<O>>(c, e, OrRef<O>{&x}, NONE, 9, "returning a reference");
      or1<O, OC, OrCRef<O>>(c, e, OrCRef<O>{&x}, NONE, 9, "returning a const reference");
      or1<O, OC, OrCRRef<O>>(c, e, OrCRRef<O>{&x}, NONE, 9, "returning a const rvalue reference");
      or1<O, OC, OrConst<O>>(c, e, OrConst<O>{}, NONE, 9, "returning a const optional");
      if (!x.has_value() || !(*x == T(9))) bad(c, "the referenced optional changed");
    }
  }
}
#endif

template <class O, class... X>
void rep(char const * n)
{
  using T = typename O::value_type;
  if (!begin(n)) return;
  for (int e = 0; e < 2; ++e) {
    O o;
    if (e) o.emplace(5);
    ++gC.states;
    ++gC.executions;
    Case c{n, "", e != 0, L};
    allResults<O, L>(c, o);
    c.oc = CL;
    allResults<O, CL>(c, o);
    c.oc = R;
    allResults<O, R>(c, o);
    c.oc = CR;
    allResults<O, CR>(c, o);
    if constexpr (std::is_same_v<std::remove_const_t<T>, P>) {
      c.oc = L;
      members<O, L>(c, o);
      c.oc = CL;
      members<O, CL>(c, o);
      c.oc = CR;
      members<O, CR>(c, o);
      c.oc = R;
      members<O, R>(c, o);
    }
  }
#if __cplusplus >= 202002L
  Case c{n, "", false, L};
  if constexpr (std::is_copy_constructible_v<T>) {
    ors<O, L>(c);
    c.oc = CL;
    ors<O, CL>(c);
    c.oc = CR;
    ors<O, CR>(c);
  }
  if constexpr (std::is_move_constructible_v<T>) {
    c.oc = R;
    ors<O, R>(c);
  }
#endif
  stat();
  sample(std::string(n) + " engaged as const&&: transform(move-only functor &&) -> immovable result, callable throwing and not throwing");
}

int main(int argc, char ** argv)
{
  setup(argc, argv);
#if VH_PART == 0
  rep<tiny::optional<P>>("tiny::optional<P>");
#elif VH_PART == 1
  rep<tiny::optional<P, &P::d>>("tiny::optional<P, double member>");
#elif VH_PART == 2
  rep<tiny::optional_inplace<P, Man>>("optional_inplace<P>");
#elif VH_PART == 3
  rep<tiny::optional_sentinel_via_type<P, SV, &P::m>>("via_type<P>");
#elif VH_PART == 4
  rep<tiny::optional<int, -1>>("tiny::optional<int,-1>");
#elif VH_PART == 5
  rep<tiny::optional_aip<int>>("optional_aip<int>");
#elif VH_PART == 6
  rep<tiny::optional<double>>("tiny::optional<double>");
#elif VH_PART == 7
  rep<tiny::optional<MO>>("tiny::optional<move-only>");
  rep<tiny::optional<MO, &MO::m, -3>>("tiny::optional<move-only, member>");
#elif VH_PART == 8
  rep<tiny::optional<P const>>("tiny::optional<P const>");
#elif VH_PART == 9
  rep<tiny::optional<Pinned>>("tiny::optional<immovable>");
#endif
  return finish();
}
