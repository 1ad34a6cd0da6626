// C13: every misuse x every representation, each in a child process that has to abort in exactly that operation.
#ifdef NDEBUG
  #error "needs assertions"
#endif
#include "common.hpp"
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>

// A class with a globally registered manipulator, found by transform() and by members.
struct Idx
{
  int a, b;
  explicit Idx(int x, int y = 2) : a(x), b(y) { }
  Idx(std::initializer_list<int> l, int y) : a(*l.begin()), b(y) { }
};
template <>
struct tiny::optional_flag_manipulator<Idx>
{
  static bool is_empty(Idx const & p) noexcept { return p.a == -100; }
  static void init_empty_flag(Idx & p) noexcept { ::new (&p) Idx(-100, 0); }
  static void invalidate_empty_flag(Idx & p) noexcept { p.~Idx(); }
};
using namespace vh;

static volatile int * gStep; // shared with the child: 1 before the operation, 2 after it
static std::string gRep;

template <class F>
int inChild(F f) // 0: finished, 1: aborted in the operation, 2: aborted elsewhere, 3: other signal/exit
{
  *gStep = 0;
  std::fflush(stdout);
  pid_t const pid = ::fork();
  if (pid == 0) {
    for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL}) std::signal(s, SIG_DFL);
    int const fd = ::open("/dev/null", O_WRONLY);
    ::dup2(fd, 2);
    std::set_terminate([] { ::_exit(77); });
    ::alarm(20);
    try { f(); }
    catch (...) { ::_exit(78); }
    ::_exit(0);
  }
  if (pid < 0) { std::printf("fork failed\n"); std::exit(2); }
  int st = 0;
  while (::waitpid(pid, &st, 0) < 0) { }
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) return *gStep == 1 ? 1 : 2;
  return 3;
}
#define OPERATION(...) do { *gStep = 1; __VA_ARGS__; *gStep = 2; } while (0)

template <class F>
void must(std::string const & what, F f)
{
  gCtx = gRep + " " + what;
  gC.transitions += 2; // bringing the operands into their state, and the operation
  ++gC.executions;
  int const r = inChild(f);
  if (r != 1) fail("ASSERT", "misuse=" + gRep + " " + what, r == 0 ? "is not detected by an assertion" : r == 2 ? "aborts in another operation" : "ends in another way");
}
template <class F>
void mustNot(std::string const & what, F f)
{
  gCtx = gRep + " " + what;
  gC.transitions += 2; // bringing the operands into their state, and the operation
  ++gC.executions;
  int const r = inChild(f);
  if (r != 0) fail("ASSERT", "legal=" + gRep + " " + what, "the program does not run to its end");
}

// Storing the sentinel. A: creates the sentinel, B: creates a legal value.
template <class O, class A, class B>
void store(std::string const & n, A bad, B good)
{
  using T = typename O::value_type;
  using V = std::remove_const_t<T>;
  gRep = n;
  ++gC.states;
  auto all = [&](auto check, auto value, bool legal) {
    (void)legal;
    check("construct from rvalue", [&] { V v = value(); OPERATION(O o(std::move(v)); opaque(&o)); });
    check("construct from const lvalue", [&] { V const v = value(); OPERATION(O o(v); opaque(&o)); });
    check("construct in_place", [&] { V v = value(); OPERATION(O o(std::in_place, v); opaque(&o)); });
    check("emplace over empty", [&] { V v = value(); O o; OPERATION(o.emplace(v)); });
    check("emplace over engaged", [&] { V v = value(); O o(good()); OPERATION(o.emplace(std::move(v))); });
    check("emplace after reset", [&] { V v = value(); O o(good()); o.reset(); OPERATION(o.emplace(v)); });
    if constexpr (std::is_copy_assignable_v<T>) {
      check("assign const lvalue over empty", [&] { V const v = value(); O o; OPERATION(o = v); });
      check("assign rvalue over empty", [&] { V v = value(); O o; OPERATION(o = std::move(v)); });
      check("assign lvalue over engaged", [&] { V v = value(); O o(good()); OPERATION(o = v); });
      check("assign rvalue over engaged", [&] { V v = value(); O o(good()); OPERATION(o = std::move(v)); });
      check("assign over moved-from", [&] { V v = value(); O o(good()); O p(std::move(o)); OPERATION(o = v); });
      check("assign after copy assignment", [&] { V v = value(); O o; O const p(good()); o = p; OPERATION(o = v); });
      check("assign after nullopt", [&] { V v = value(); O o(good()); o = std::nullopt; OPERATION(o = v); });
    }
    check("assignment of a temporary optional", [&] { V v = value(); O o; OPERATION(O t(v); if constexpr (std::is_move_assignable_v<T>) o = std::move(t); opaque(&o)); });
  };
  all([](std::string const & w, auto f) { must("store the sentinel: " + w, f); }, bad, false);
  all([](std::string const & w, auto f) { mustNot("store a value: " + w, f); }, good, true);
}
template <class O, class B>
void deref(std::string const & n, B good)
{
  gRep = n;
  auto empties = [&](std::string const & how, auto make) {
    ++gC.states;
    must("operator* & of " + how, [&] { O o; make(o); OPERATION(auto & r = *o; opaque(&r)); });
    must("operator* const& of " + how, [&] { O o; make(o); OPERATION(auto & r = *std::as_const(o); opaque(&r)); });
    must("operator* && of " + how, [&] { O o; make(o); OPERATION(auto && r = *std::move(o); opaque(&r)); });
    must("operator* const&& of " + how, [&] { O o; make(o); OPERATION(auto && r = *std::move(std::as_const(o)); opaque(&r)); });
    must("operator-> of " + how, [&] { O o; make(o); OPERATION(auto * r = o.operator->(); opaque(r)); });
    must("operator-> const of " + how, [&] { O o; make(o); OPERATION(auto * r = std::as_const(o).operator->(); opaque(r)); });
  };
  empties("a default constructed one", [](O &) { });
  empties("a reset one", [&](O & o) { o.emplace(good()); o.reset(); });
  if constexpr (std::is_copy_assignable_v<typename O::value_type>) {
    empties("one assigned nullopt", [&](O & o) { o.emplace(good()); o = std::nullopt; });
    empties("one copied from an empty one", [&](O & o) { o.emplace(good()); O const e; o = e; });
    empties("one swapped with an empty one", [&](O & o) { o.emplace(good()); O e; o.swap(e); });
  }
  mustNot("dereference an engaged one", [&] {
    O o(std::in_place, good());
    OPERATION(opaque(&*o); opaque(&*std::as_const(o)); opaque(o.operator->()); opaque(std::as_const(o).operator->()); auto && r = *std::move(o); opaque(&r));
  });
  mustNot("ask an empty one", [&] {
    O o;
    OPERATION(bool b = o.has_value() || static_cast<bool>(o); opaque(&b); try { opaque(&o.value()); } catch (std::bad_optional_access const &) { } o.reset(); o = std::nullopt);
  });
}
template <class O, class A, class B>
void both(std::string const & n, A bad, B good)
{
  if (!begin(n)) return;
  store<O>(n, bad, good);
  deref<O>(n, good);
  vh::stat();
  sample(n + ": assign the sentinel over a moved-from optional; operator-> const of one swapped with an empty one");
}
#define BOTH(BAD, GOOD, ...) both<__VA_ARGS__>(#__VA_ARGS__, [] { return BAD; }, [] { return GOOD; })

// Payloads that turn into the sentinel when copied or moved, or whose source does.
enum How { CopyCtor, MoveCtor, CopyAsg, MoveAsg, SrcMoveCtor, SrcMoveAsg, Harmless };
template <How H>
struct Turn
{
  int v;
  explicit Turn(int i) : v(i) { }
  Turn(Turn const & o) : v(H == CopyCtor ? -1 : o.v) { }
  Turn(Turn && o) noexcept : v(H == MoveCtor ? -1 : o.v) { if (H == SrcMoveCtor) o.v = -1; }
  Turn & operator=(Turn const & o) { v = H == CopyAsg ? -1 : o.v; return *this; }
  Turn & operator=(Turn && o) noexcept { v = H == MoveAsg ? -1 : o.v; if (H == SrcMoveAsg) o.v = -1; return *this; }
};
template <How H>
struct TMan
{
  static bool is_empty(Turn<H> const & p) noexcept { return p.v == -1; }
  static void init_empty_flag(Turn<H> & p) noexcept { ::new (&p) Turn<H>(-1); }
  static void invalidate_empty_flag(Turn<H> & p) noexcept { p.~Turn<H>(); }
};
struct SV { static constexpr int value = -1; };

template <class O, How H>
void turning(char const * n)
{
  gRep = std::string(n) + " " + std::to_string(H);
  ++gC.states;
  auto on = [&](std::initializer_list<How> hs, char const * what, auto f) {
    bool bad = false;
    for (How h : hs) bad = bad || h == H;
    if (bad) must(what, f);
    else mustNot(what, f);
  };
  on({CopyCtor}, "copy construct the optional", [] { O o(std::in_place, 5); OPERATION(O c(o); opaque(&c)); });
  on({CopyCtor}, "construct from const value", [] { Turn<H> const v(5); OPERATION(O c(v); opaque(&c)); });
  on({CopyCtor}, "copy assign over empty", [] { O o(std::in_place, 5), c; OPERATION(c = o); });
  on({CopyCtor}, "assign const value over empty", [] { Turn<H> const v(5); O c; OPERATION(c = v); });
  on({CopyAsg}, "copy assign over engaged", [] { O o(std::in_place, 5), c(std::in_place, 6); OPERATION(c = o); });
  on({CopyAsg}, "assign const value over engaged", [] { Turn<H> const v(5); O c(std::in_place, 6); OPERATION(c = v); });
  on({MoveCtor, SrcMoveCtor}, "move construct the optional", [] { O o(std::in_place, 5); OPERATION(O c(std::move(o)); opaque(&c)); });
  on({MoveCtor}, "construct from rvalue", [] { Turn<H> v(5); OPERATION(O c(std::move(v)); opaque(&c)); });
  on({MoveCtor, SrcMoveCtor}, "move assign over empty", [] { O o(std::in_place, 5), c; OPERATION(c = std::move(o)); });
  on({MoveAsg, SrcMoveAsg}, "move assign over engaged", [] { O o(std::in_place, 5), c(std::in_place, 6); OPERATION(c = std::move(o)); });
  on({MoveCtor}, "emplace a moved value", [] { Turn<H> v(5); O c; OPERATION(c.emplace(std::move(v))); });
  on({MoveAsg}, "assign an rvalue over engaged", [] { Turn<H> v(5); O c(std::in_place, 6); OPERATION(c = std::move(v)); });
#if __cplusplus >= 202002L
  on({MoveCtor, SrcMoveCtor}, "rvalue or_else", [] { O o(std::in_place, 5); OPERATION(auto c = std::move(o).or_else([] { return O(); }); opaque(&c)); });
  on({CopyCtor}, "lvalue or_else", [] { O o(std::in_place, 5); OPERATION(auto c = o.or_else([] { return O(); }); opaque(&c)); });
#endif
  on({}, "copy an empty one", [] { O o, c(std::in_place, 6); OPERATION(O d(o); c = o; O e(std::move(o)); opaque(&d); opaque(&e)); });
}
template <How H>
void turn1()
{
  turning<tiny::optional_inplace<Turn<H>, TMan<H>>, H>("optional_inplace");
#ifndef VH_NOTRICKS
  turning<tiny::optional<Turn<H>, &Turn<H>::v, -1>, H>("optional with member");
  turning<tiny::optional_sentinel_via_type<Turn<H>, SV, &Turn<H>::v>, H>("via_type");
#endif
}

enum class En : unsigned char { a, b, c };
struct SVE { static constexpr En value = En::c; };
struct Dur { long long t; constexpr explicit Dur(long long x) noexcept : t(x) { } friend constexpr bool operator==(Dur const & a, Dur const & b) noexcept { return a.t == b.t; } };
struct SVC { static constexpr auto value = Dur(-7); };
struct Mem { double pre; int m; double d; bool b; int * p; float f; Mem(int i) : pre(1), m(i), d(1), b(true), p(nullptr), f(1) { } };
inline double resD() { std::uint64_t const u = 0x7ff8fedcba987654u; double d; std::memcpy(&d, &u, 8); return d; }
inline float resF() { std::uint32_t const u = 0x7fedcba9u; float d; std::memcpy(&d, &u, 4); return d; }
inline std::uintptr_t resP() { return sizeof(void *) == 8 ? static_cast<std::uintptr_t>(0xffff800000000000ull - 1) : static_cast<std::uintptr_t>(0xffffffffu - 8); }
inline Mem memM(int i) { Mem x(i); return x; }
inline Mem memD(bool r) { Mem x(1); if (r) x.d = resD(); return x; }
inline Mem memP(bool r) { Mem x(1); if (r) x.p = reinterpret_cast<int *>(resP()); return x; }
inline Mem memF(bool r) { Mem x(1); if (r) x.f = resF(); return x; }
struct PairMan
{
  static bool is_empty(std::pair<int, int> const & p) noexcept { return p.first > p.second; }
  static void init_empty_flag(std::pair<int, int> & p) noexcept { ::new (&p) std::pair<int, int>(1, 0); }
  static void invalidate_empty_flag(std::pair<int, int> &) noexcept { }
};

template <int S>
void all8()
{
  using O = tiny::optional<signed char, static_cast<signed char>(S)>;
  gRep = "optional<signed char," + std::to_string(S) + ">";
  ++gC.states;
  auto const s = static_cast<signed char>(S);
  auto const g = static_cast<signed char>(S + 1);
  must("construct", [&] { OPERATION(O o(s); opaque(&o)); });
  must("assign over empty", [&] { O o; OPERATION(o = s); });
  must("assign over engaged", [&] { O o(g); OPERATION(o = s); });
  must("assign converted int over engaged", [&] { O o(g); OPERATION(o = S); });
  must("emplace", [&] { O o; OPERATION(o.emplace(s)); });
  must("make_optional", [&] { OPERATION(auto o = tiny::make_optional<signed char, static_cast<signed char>(S)>(S); opaque(&o)); });
}
template <int... I>
void all8s(std::integer_sequence<int, I...>) { (all8<I * VH_STRIDE - 128>(), ...); }

int main(int argc, char ** argv)
{
  setup(argc, argv);
  gStep = static_cast<int *>(::mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
#if VH_PART == 0
  BOTH(-1, 5, tiny::optional<int, -1>);
  BOTH(short(-32768), short(3), tiny::optional_aip<short>);
  BOTH(0xffffu, 3u, tiny::optional<unsigned, 0xffffu>);
  BOTH(std::numeric_limits<unsigned>::max(), 0u, tiny::optional_aip<unsigned>);
  BOTH(std::numeric_limits<long long>::min(), 0ll, tiny::optional_aip<long long>);
  BOTH(std::numeric_limits<unsigned long>::max(), 0ul, tiny::optional_aip<unsigned long>);
  BOTH(-1, 5, tiny::optional<int const, -1>);
  BOTH('x', 'y', tiny::optional<char, 'x'>);
#elif VH_PART == 1
  BOTH(En::c, En::a, tiny::optional<En, En::c>);
  BOTH(En::c, En::a, tiny::optional_sentinel_via_type<En, SVE>);
  BOTH(Dur(-7), Dur(1), tiny::optional_sentinel_via_type<Dur, SVC>);
  BOTH(-1, 5, tiny::optional_sentinel_via_type<int, SV>);
  BOTH(true, false, tiny::optional<bool, true>);
  #ifndef VH_NOTRICKS
  BOTH(resD(), 1.0, tiny::optional<double>);
  BOTH(resF(), 1.0f, tiny::optional<float>);
  BOTH(reinterpret_cast<int *>(resP()), static_cast<int *>(nullptr), tiny::optional<int *>);
  BOTH(reinterpret_cast<void (*)()>(resP()), static_cast<void (*)()>(nullptr), tiny::optional<void (*)()>);
  BOTH(resD(), 1.0, tiny::optional_aip<double>);
  #endif
#elif VH_PART == 2
  #ifndef VH_NOTRICKS
  BOTH(memM(-1), memM(5), tiny::optional<Mem, &Mem::m, -1>);
  BOTH(memM(-1), memM(5), tiny::optional_sentinel_via_type<Mem, SV, &Mem::m>);
  BOTH(memD(true), memD(false), tiny::optional<Mem, &Mem::d>);
  BOTH(memP(true), memP(false), tiny::optional<Mem, &Mem::p>);
  BOTH(memF(true), memF(false), tiny::optional<Mem, &Mem::f>);
  #endif
  BOTH(Idx(-100), Idx(3), tiny::optional<Idx>);
  BOTH(std::make_pair(2, 1), std::make_pair(1, 1), tiny::optional_inplace<std::pair<int, int>, PairMan>);
#elif VH_PART == 3
  if (begin("payloads turning into the sentinel")) {
    turn1<CopyCtor>();
    turn1<MoveCtor>();
    turn1<CopyAsg>();
    turn1<MoveAsg>();
    turn1<SrcMoveCtor>();
    turn1<SrcMoveAsg>();
    turn1<Harmless>();
    vh::stat();
    sample("payload whose move constructor turns the source into the sentinel: move assign over an empty optional must abort");
  }
  if (begin("results of transform and make_optional")) {
    gRep = "transform";
    using OI = tiny::optional<int, -1>;
    must("to Idx sentinel, lvalue", [] { OI o(5); OPERATION(auto r = o.transform([](int) { return Idx(-100); }); opaque(&r)); });
    must("to Idx sentinel, const", [] { OI const o(5); OPERATION(auto r = o.transform([](int) { return Idx(-100); }); opaque(&r)); });
    must("to Idx sentinel, rvalue", [] { OI o(5); OPERATION(auto r = std::move(o).transform([](int) { return Idx(-100); }); opaque(&r)); });
    must("to Idx sentinel, const rvalue", [] { OI const o(5); OPERATION(auto r = std::move(o).transform([](int) { return Idx(-100); }); opaque(&r)); });
    must("to Idx sentinel, noexcept callable", [] { OI o(5); OPERATION(auto r = o.transform([](int) noexcept { return Idx(-100); }); opaque(&r)); });
    mustNot("to Idx", [] { OI o(5); OPERATION(auto r = o.transform([](int) { return Idx(1); }); opaque(&r)); });
    mustNot("of an empty one", [] { OI o; OPERATION(auto r = o.transform([](int) { return Idx(-100); }); opaque(&r)); });
  #ifndef VH_NOTRICKS
    must("to the reserved double", [] { OI o(5); OPERATION(auto r = o.transform([](int) { return resD(); }); opaque(&r)); });
    must("to the reserved float", [] { OI o(5); OPERATION(auto r = o.transform([](int) { return resF(); }); opaque(&r)); });
    must("to the reserved pointer", [] { OI o(5); OPERATION(auto r = o.transform([](int) { return reinterpret_cast<int *>(resP()); }); opaque(&r)); });
  #endif
    gRep = "make_optional";
    must("with a sentinel value", [] { int v = -1; OPERATION(auto r = tiny::make_optional<int, -1>(v); opaque(&r)); });
    must("of Idx, in place", [] { OPERATION(auto r = tiny::make_optional<Idx>(-100); opaque(&r)); });
    must("of Idx, from a value", [] { OPERATION(auto r = tiny::make_optional(Idx(-100)); opaque(&r)); });
    must("of Idx, initializer list", [] { OPERATION(auto r = tiny::make_optional<Idx>({-100}, 3); opaque(&r)); });
    must("in_place constructor with an initializer list", [] { OPERATION(tiny::optional<Idx> r(std::in_place, {-100}, 3); opaque(&r)); });
    must("emplace with an initializer list over empty", [] { tiny::optional<Idx> r; OPERATION(r.emplace({-100}, 3)); });
    must("emplace with an initializer list over engaged", [] { tiny::optional<Idx> r(Idx(4)); OPERATION(r.emplace({-100}, 3)); });
    mustNot("emplace with an initializer list", [] { tiny::optional<Idx> r(Idx(4)); OPERATION(r.emplace({-101}, 3)); });
    must("converting assignment", [] { tiny::optional<int, -1> o; short s = -1; OPERATION(o = s); });
    must("converting construction", [] { short s = -1; OPERATION(tiny::optional<int, -1> o(s); opaque(&o)); });
    gC.states += gC.executions;
    vh::stat();
  }
#elif VH_PART == 4
  if (begin("every sentinel of a signed char")) {
    all8s(std::make_integer_sequence<int, 256 / VH_STRIDE>{});
    vh::stat();
    sample("optional<signed char, -77>: construct, assign over empty/engaged, emplace, make_optional with -77");
  }
#endif
  return finish();
}
