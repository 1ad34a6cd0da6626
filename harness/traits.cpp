// C12: the finite matrix of special members, conversions, noexcept and return types against std::optional.
#include "common.hpp"
#include <any>
#include <string>
#include <string_view>
using namespace vh;

struct SV { static constexpr int value = -5; };
template <class T>
struct Man
{
  static bool is_empty(T const &) noexcept { return true; }
  static void init_empty_flag(T &) noexcept { }
  static void invalidate_empty_flag(T &) noexcept { }
};

static std::string gRep;
static void cmp(bool t, bool s, char const * what)
{
  ++gC.transitions;
  if (t != s) {
    fail("TRAIT", "type=" + gRep + " trait " + what, std::string("is ") + (t ? "true" : "false") + ", but " + (s ? "true" : "false") + " for std::optional");
  }
}
static void want(bool ok, char const * what)
{
  ++gC.transitions;
  if (!ok) fail("TRAIT", "type=" + gRep + " requires " + what, "does not hold");
}
#define BOTH(X) do { using O = TO; constexpr bool t_ = X; { using O = SO; constexpr bool s_ = X; cmp(t_, s_, #X); } } while (0)
#define BOTH2(...) do { bool t_, s_; { using O = TO; t_ = __VA_ARGS__; (void)sizeof(O); } { using O = SO; s_ = __VA_ARGS__; (void)sizeof(O); } cmp(t_, s_, #__VA_ARGS__); } while (0)

// ---- detection helpers -----------------------------------------------------------------------------------------------
template <class O, class = void> struct HasMemSwapNx { static constexpr bool value = false; };
template <class O> constexpr bool nullNx()
{
  O const * o = nullptr;
  return noexcept(*o == std::nullopt) && noexcept(*o != std::nullopt) && noexcept(*o < std::nullopt) && noexcept(*o <= std::nullopt) && noexcept(*o > std::nullopt) && noexcept(*o >= std::nullopt)
      && noexcept(std::nullopt == *o) && noexcept(std::nullopt != *o) && noexcept(std::nullopt < *o) && noexcept(std::nullopt <= *o) && noexcept(std::nullopt > *o) && noexcept(std::nullopt >= *o);
}

// ---- every combination of copy/move construction/assignment -----------------------------------------------------------
#define N_ noexcept
#define T_ noexcept(false)
#define CC_n(S) S(S const &) noexcept { }
#define CC_t(S) S(S const &) noexcept(false) { }
#define CC_d(S) S(S const &) = delete;
#define MC_n(S) S(S &&) noexcept { }
#define MC_t(S) S(S &&) noexcept(false) { }
#define MC_d(S) S(S &&) = delete;
#define MC_o(S) /* omitted: falls back to copying */
#define CA_n(S) S & operator=(S const &) noexcept { return *this; }
#define CA_t(S) S & operator=(S const &) noexcept(false) { return *this; }
#define CA_d(S) S & operator=(S const &) = delete;
#define MA_n(S) S & operator=(S &&) noexcept { return *this; }
#define MA_t(S) S & operator=(S &&) noexcept(false) { return *this; }
#define MA_d(S) S & operator=(S &&) = delete;
#define MA_o(S)
// Swap: n noexcept, t may throw, o omitted (std::swap), d deleted
#define SW_n(S) friend void swap(S &, S &) noexcept { }
#define SW_t(S) friend void swap(S &, S &) noexcept(false) { }
#define SW_o(S)
#define SW_d(S) friend void swap(S &, S &) = delete;

#if __cplusplus >= 202002L
template <class O, class F>
concept CanOrElse = requires(O && o, F && f) { static_cast<O &&>(o).or_else(static_cast<F &&>(f)); };
#endif
template <class TO, class SO>
void special(std::string const & n)
{
  gRep = n;
  gCtx = n;
  ++gC.states;
  ++gC.executions;
  using T = typename TO::value_type;
  BOTH2(std::is_default_constructible_v<O>);
  BOTH2(std::is_copy_constructible_v<O>);
  BOTH2(std::is_move_constructible_v<O>);
  BOTH2(std::is_copy_assignable_v<O>);
  BOTH2(std::is_move_assignable_v<O>);
  BOTH2(std::is_constructible_v<O, O &>);
  BOTH2(std::is_constructible_v<O, O const &&>);
  BOTH2(std::is_convertible_v<O const &, O>);
  BOTH2(std::is_convertible_v<O, O>);
  BOTH2(std::is_assignable_v<O &, O &>);
  BOTH2(std::is_assignable_v<O &, O const &&>);
  BOTH2(std::is_nothrow_move_constructible_v<O>);
  BOTH2(std::is_nothrow_move_assignable_v<O>);
  BOTH2(std::is_nothrow_destructible_v<O>);
  BOTH2(std::is_nothrow_constructible_v<O, std::nullopt_t>);
  BOTH2(std::is_nothrow_assignable_v<O &, std::nullopt_t>);
  BOTH2(noexcept(std::declval<O &>().reset()));
  BOTH2(noexcept(std::declval<O const &>().has_value()));
  BOTH2(noexcept(static_cast<bool>(std::declval<O const &>())));
  want(std::is_nothrow_default_constructible_v<TO>, "noexcept default constructor");
#if __cplusplus >= 202002L
  // [optional.monadic]: or_else is constrained.
  using Callable = TO (*)();
  using NotCallable = TO (*)(int);
  cmp(CanOrElse<TO &, Callable>, std::copy_constructible<T>, "or_else on an lvalue");
  cmp(CanOrElse<TO const &, Callable>, std::copy_constructible<T>, "or_else on a const lvalue");
  cmp(CanOrElse<TO const, Callable>, std::copy_constructible<T>, "or_else on a const rvalue");
  cmp(CanOrElse<TO, Callable>, std::move_constructible<T>, "or_else on an rvalue");
  cmp(CanOrElse<TO &, NotCallable>, false, "or_else on an lvalue with something that is not callable");
  cmp(CanOrElse<TO, NotCallable>, false, "or_else on an rvalue with something that is not callable");
#endif
  // Never promise noexcept where the payload may throw.
  if (!std::is_nothrow_copy_constructible_v<T>) want(!std::is_nothrow_copy_constructible_v<TO>, "copy constructor that may throw");
  if (!std::is_nothrow_copy_constructible_v<T> || !std::is_nothrow_copy_assignable_v<T>) want(!std::is_nothrow_copy_assignable_v<TO> || !std::is_copy_assignable_v<TO>, "copy assignment that may throw");
  // The values
  BOTH2(std::is_constructible_v<O, T>);
  BOTH2(std::is_constructible_v<O, T &>);
  BOTH2(std::is_constructible_v<O, T const &>);
  BOTH2(std::is_convertible_v<T, O>);
  BOTH2(std::is_convertible_v<T const &, O>);
  BOTH2(std::is_assignable_v<O &, T>);
  BOTH2(std::is_assignable_v<O &, T &>);
  BOTH2(std::is_assignable_v<O &, T const &>);
  BOTH2(std::is_constructible_v<O, std::in_place_t, T>);
  BOTH2(std::is_constructible_v<O, std::in_place_t, T const &>);
  want(!std::is_assignable_v<TO const &, TO>, "no assignment to a const optional");
  if constexpr (std::is_move_constructible_v<T> && std::is_swappable_v<T>) {
    BOTH2(std::is_swappable_v<O>);
    BOTH2(std::is_nothrow_swappable_v<O>);
    BOTH2(noexcept(std::declval<O &>().swap(std::declval<O &>())));
  }
}
#define KLASS(C, M, CA, MA, SW) \
  { \
    struct S { int m; explicit S(int i) noexcept : m(i) { } CC_##C(S) MC_##M(S) CA_##CA(S) MA_##MA(S) }; \
    std::string const b = "copy ctor " #C ", move ctor " #M ", copy assign " #CA ", move assign " #MA ", swap " #SW; \
    special<tiny::optional<S>, std::optional<S>>("optional<" + b + ">"); \
    special<tiny::optional_inplace<S, Man<S>>, std::optional<S>>("optional_inplace<" + b + ">"); \
    special<tiny::optional<S, &S::m, -1>, std::optional<S>>("optional with member<" + b + ">"); \
    special<tiny::optional_sentinel_via_type<S, SV, &S::m>, std::optional<S>>("via_type<" + b + ">"); \
  }
#define K4(C, M, CA, SW) KLASS(C, M, CA, n, SW) KLASS(C, M, CA, t, SW) KLASS(C, M, CA, d, SW) KLASS(C, M, CA, o, SW)
#define K3(C, M, SW) K4(C, M, n, SW) K4(C, M, t, SW) K4(C, M, d, SW)
#define K2(C) K3(C, n, o) K3(C, t, o) K3(C, d, o) K3(C, o, o)

// Classes with their own swap (friends are not allowed in local classes).
#define SWK(C, M, CA, MA, SW) struct S_##C##M##CA##MA##SW { int m; explicit S_##C##M##CA##MA##SW(int i) noexcept : m(i) { } CC_##C(S_##C##M##CA##MA##SW) MC_##M(S_##C##M##CA##MA##SW) CA_##CA(S_##C##M##CA##MA##SW) MA_##MA(S_##C##M##CA##MA##SW) SW_##SW(S_##C##M##CA##MA##SW) };
#define SWL(X, SW) X(n, n, n, n, SW) X(t, n, t, n, SW) X(t, t, t, t, SW) X(d, n, d, d, SW) X(d, t, d, n, SW) X(d, n, d, t, SW) X(d, d, d, d, SW) X(n, o, n, o, SW) X(t, o, n, o, SW)
SWL(SWK, n) SWL(SWK, t) SWL(SWK, d)
#define SWR(C, M, CA, MA, SW) { using S = S_##C##M##CA##MA##SW; \
    std::string const b = "copy ctor " #C ", move ctor " #M ", copy assign " #CA ", move assign " #MA ", swap " #SW; \
    special<tiny::optional<S>, std::optional<S>>("optional<" + b + ">"); \
    special<tiny::optional_inplace<S, Man<S>>, std::optional<S>>("optional_inplace<" + b + ">"); \
    special<tiny::optional<S, &S::m, -1>, std::optional<S>>("optional with member<" + b + ">"); \
    special<tiny::optional_sentinel_via_type<S, SV, &S::m>, std::optional<S>>("via_type<" + b + ">"); }

// ---- conversions -------------------------------------------------------------------------------------------------------
struct Impl { Impl(int) { } };
struct Expl { explicit Expl(int) { } };
struct ConvTo { operator int() const; };
struct ConvToX { explicit operator int() const; };
struct Greedy { Greedy(); template <class X> Greedy(X &&); Greedy(Greedy const &); template <class X> Greedy & operator=(X &&); };
struct Multi { Multi(int, double) { } Multi(std::initializer_list<int>, int = 0) { } };
struct OnlyCtor { OnlyCtor(int); OnlyCtor & operator=(int) = delete; OnlyCtor(OnlyCtor const &); OnlyCtor & operator=(OnlyCtor const &); };
struct RvOnly { RvOnly(std::unique_ptr<int> &&); RvOnly(std::unique_ptr<int> const &) = delete; };
struct Unrel { };
struct NoDef { NoDef(int) noexcept; NoDef(double) noexcept(false); };
struct FromOpt { FromOpt(std::nullopt_t) { } FromOpt() { } };
enum class EC { a, b };
enum EU { ea, eb };
struct Agg { int a; double b; };

// Copy-list-initialisation, i.e. whether the selected constructor is not explicit.
template <class O, class... A>
auto listInit(int) -> decltype(std::declval<void (&)(O)>()({std::declval<A>()...}), std::true_type{});
template <class O, class... A>
std::false_type listInit(...);
template <class O, class... A>
inline constexpr bool isListInit = decltype(listInit<O, A...>(0))::value;

template <class TO, class SO, class U>
void conv(char const * u)
{
  std::string const r = gRep;
  gRep = r + " from " + u;
  ++gC.executions;
  BOTH2(std::is_constructible_v<O, U>);
  BOTH2(std::is_convertible_v<U, O>);
  BOTH2(std::is_assignable_v<O &, U>);
  BOTH2(std::is_constructible_v<O, std::in_place_t, U>);
  if constexpr (!std::is_pointer_v<U> || std::is_function_v<std::remove_pointer_t<U>>) BOTH2(std::is_constructible_v<O, std::in_place_t, U, U>);
  BOTH2(std::is_constructible_v<O, std::in_place_t &, U>);
  gRep = r;
}
#define CV(U) conv<TO, SO, U>(#U)
template <class TO, class SO>
void convs(char const * n)
{
  gRep = n;
  gCtx = n;
  ++gC.states;
  CV(int); CV(int &); CV(int const &); CV(short); CV(double); CV(double &); CV(long long); CV(bool); CV(char);
  CV(char const *); CV(char const(&)[4]); CV(std::string); CV(std::string &); CV(std::string const &); CV(std::string_view); CV(std::nullptr_t);
  CV(int *); CV(int const *); CV(void *); CV(void const *); CV(void (*)()); CV(Impl); CV(Expl); CV(ConvTo); CV(ConvToX); CV(Greedy); CV(Greedy &); CV(Unrel); CV(EC); CV(EU);
  CV(std::unique_ptr<int>); CV(std::unique_ptr<int> &); CV(std::unique_ptr<int> const &); CV(std::vector<int>); CV(std::vector<int> &); CV(std::any); CV(Agg); CV(Agg const &); CV(Multi); CV(FromOpt);
  CV(std::nullopt_t); CV(std::nullopt_t const &); CV(std::in_place_t); CV(std::in_place_t const &);
  BOTH2(std::is_constructible_v<O, std::in_place_t>);
  BOTH2(std::is_constructible_v<O, std::in_place_t, int, double>);
  BOTH2(std::is_constructible_v<O, std::in_place_t, std::initializer_list<int>>);
  BOTH2(std::is_constructible_v<O, std::in_place_t, std::initializer_list<int>, int>);
  BOTH2(std::is_constructible_v<O, std::in_place_t, std::initializer_list<int>, Unrel>);
  BOTH2(std::is_constructible_v<O, std::in_place_t, std::initializer_list<char>>);
  BOTH2((isListInit<O, std::in_place_t>));
  BOTH2((isListInit<O, std::in_place_t, int>));
  BOTH2((isListInit<O, std::in_place_t, int, double>));
  BOTH2((isListInit<O, std::in_place_t, std::initializer_list<int>>));
  BOTH2((isListInit<O, std::in_place_t, std::initializer_list<int> &, int>));
  BOTH2((isListInit<O, std::in_place_t, std::initializer_list<char>>));
  BOTH2((isListInit<O, std::nullopt_t>));
  BOTH2((isListInit<O>));
  BOTH2(std::is_convertible_v<std::in_place_t, O>);
  BOTH2(std::is_convertible_v<std::nullopt_t, O>);
  BOTH2(std::is_convertible_v<O, bool>);
  BOTH2(std::is_constructible_v<bool, O>);
  BOTH2(std::is_convertible_v<O, int>);
  BOTH2(std::is_constructible_v<O, Unrel, Unrel>);
  BOTH2(std::is_constructible_v<O, int, int>);
}

// ---- observers -----------------------------------------------------------------------------------------------------------
#define SAME(EXPR) do { bool t_, s_; (void)0; \
    { using O = TO; using R1 = decltype(EXPR); { using O = SO; using R2 = decltype(EXPR); t_ = std::is_same_v<R1, R2>; (void)sizeof(O); } (void)sizeof(O); } \
    s_ = true; ++gC.transitions; if (t_ != s_) fail("TRAIT", "type=" + gRep + " type of " #EXPR, "differs from std::optional"); } while (0)
// LWG 3424: value_or() should not return a const prvalue; both is fine.
template <class X> std::remove_cv_t<X> nocv(X &&);
template <class TO, class SO>
void observers(char const * n)
{
  gRep = n;
  gCtx = n;
  ++gC.states;
  ++gC.executions;
  using T = typename SO::value_type;
  want(std::is_same_v<typename TO::value_type, T>, "value_type");
  want(tiny::is_tiny_optional_v<TO>, "is_tiny_optional_v");
  want(!tiny::is_tiny_optional_v<SO>, "!is_tiny_optional_v<std::optional>");
  SAME(std::declval<O &>().value());
  SAME(std::declval<O const &>().value());
  SAME(std::declval<O &&>().value());
  SAME(std::declval<O const &&>().value());
  SAME(*std::declval<O &>());
  SAME(*std::declval<O const &>());
  SAME(*std::declval<O &&>());
  SAME(*std::declval<O const &&>());
  SAME(std::declval<O &>().operator->());
  SAME(std::declval<O const &>().operator->());
  SAME(std::declval<O &&>().operator->());
  SAME(std::declval<O const &&>().operator->());
  SAME(std::declval<O const &>().has_value());
  SAME(std::declval<O &>().reset());
  if constexpr (std::is_copy_constructible_v<T>) {
    SAME(nocv(std::declval<O &>().value_or(std::declval<T>())));
    SAME(nocv(std::declval<O const &>().value_or(std::declval<T>())));
    SAME(nocv(std::declval<O const &&>().value_or(std::declval<T>())));
    SAME(std::declval<O &>().emplace(std::declval<T const &>()));
  }
  SAME(nocv(std::declval<O &&>().value_or(std::declval<T>())));
  SAME(std::declval<O &>().emplace(std::declval<T>()));
  want(std::is_same_v<decltype(std::declval<TO &>() = std::nullopt), TO &>, "= nullopt returns O&");
  if constexpr (std::is_copy_assignable_v<T>) {
    want(std::is_same_v<decltype(std::declval<TO &>() = std::declval<T>()), TO &>, "= T returns O&");
    want(std::is_same_v<decltype(std::declval<TO &>() = std::declval<TO const &>()), TO &>, "= O returns O&");
    want(std::is_same_v<decltype(std::declval<TO &>() = std::declval<TO>()), TO &>, "= O&& returns O&");
    SAME(std::declval<O &>().swap(std::declval<O &>()));
    using std::swap;
    SAME(swap(std::declval<O &>(), std::declval<O &>()));
  }
  BOTH2(noexcept(*std::declval<O &>()));
  BOTH2(noexcept(*std::declval<O const &>()));
  BOTH2(noexcept(*std::declval<O &&>()));
  BOTH2(noexcept(*std::declval<O const &&>()));
  BOTH2(noexcept(std::declval<O &>().operator->()));
  BOTH2(noexcept(std::declval<O const &>().operator->()));
  BOTH2(noexcept(std::declval<O const &>().value()));
  BOTH2(noexcept(std::declval<O &>().value()));
  BOTH2(nullNx<O>());
  BOTH2(std::is_convertible_v<O, bool>);
  if constexpr (std::is_move_constructible_v<T> && std::is_swappable_v<T>) {
    BOTH2(std::is_nothrow_swappable_v<O>);
  }
  BOTH2(std::is_nothrow_move_constructible_v<O>);
  BOTH2(std::is_nothrow_move_assignable_v<O>);
}

template <class A, class B> constexpr bool same = std::is_same_v<A, B>;

int main(int argc, char ** argv)
{
  setup(argc, argv);
#if VH_PART == 0
  if (begin("special members, copyable")) { K3(n, n, o) K3(n, t, o) stat(); sample("payload: copy ctor throwing, move ctor deleted, copy assign noexcept, move assign omitted: 45 traits vs std::optional, 4 representations"); }
#elif VH_PART == 1
  if (begin("special members, copyable, move deleted/omitted")) { K3(n, d, o) K3(n, o, o) stat(); }
#elif VH_PART == 2
  if (begin("special members, throwing copy")) { K3(t, n, o) K3(t, t, o) stat(); }
#elif VH_PART == 3
  if (begin("special members, throwing copy, move deleted/omitted")) { K3(t, d, o) K3(t, o, o) stat(); }
#elif VH_PART == 4
  if (begin("special members, no copy")) { K3(d, n, o) K3(d, t, o) stat(); }
#elif VH_PART == 5
  if (begin("special members, no copy, move deleted/omitted")) { K3(d, d, o) K3(d, o, o) stat(); }
#elif VH_PART == 6
  if (begin("swap")) {
    SWL(SWR, n) SWL(SWR, t) SWL(SWR, d)
    stat();
  }
#elif VH_PART == 7
  if (begin("conversions: arithmetic payloads")) {
    convs<tiny::optional<int>, std::optional<int>>("tiny::optional<int>");
    convs<tiny::optional<int, -1>, std::optional<int>>("tiny::optional<int,-1>");
    convs<tiny::optional_aip<int>, std::optional<int>>("optional_aip<int>");
    convs<tiny::optional<double>, std::optional<double>>("tiny::optional<double>");
    convs<tiny::optional<bool>, std::optional<bool>>("tiny::optional<bool>");
    convs<tiny::optional<int *>, std::optional<int *>>("tiny::optional<int*>");
    convs<tiny::optional<void const *>, std::optional<void const *>>("tiny::optional<void const*>");
    convs<tiny::optional_sentinel_via_type<int, SV>, std::optional<int>>("via_type<int>");
    convs<tiny::optional_inplace<int, Man<int>>, std::optional<int>>("optional_inplace<int>");
    stat();
    sample("is_convertible<short, optional<int,-1>>, is_assignable<optional<int>&, ConvToX>, is_constructible<optional<void const*>, nullptr_t>");
  }
#elif VH_PART == 8
  if (begin("conversions: class payloads")) {
    convs<tiny::optional<std::string>, std::optional<std::string>>("tiny::optional<string>");
    convs<tiny::optional<std::vector<int>>, std::optional<std::vector<int>>>("tiny::optional<vector<int>>");
    convs<tiny::optional<std::unique_ptr<int>>, std::optional<std::unique_ptr<int>>>("tiny::optional<unique_ptr>");
    convs<tiny::optional<Impl>, std::optional<Impl>>("tiny::optional<Impl>");
    convs<tiny::optional<Expl>, std::optional<Expl>>("tiny::optional<Expl>");
    convs<tiny::optional<Multi>, std::optional<Multi>>("tiny::optional<Multi>");
    convs<tiny::optional<OnlyCtor>, std::optional<OnlyCtor>>("tiny::optional<OnlyCtor>");
    convs<tiny::optional<RvOnly>, std::optional<RvOnly>>("tiny::optional<RvOnly>");
    convs<tiny::optional<Agg>, std::optional<Agg>>("tiny::optional<Agg>");
    convs<tiny::optional<Agg, &Agg::a, -1>, std::optional<Agg>>("tiny::optional<Agg,member>");
    stat();
  }
#elif VH_PART == 9
  if (begin("conversions: special payloads")) {
    convs<tiny::optional<EC>, std::optional<EC>>("tiny::optional<enum class>");
    convs<tiny::optional<EU>, std::optional<EU>>("tiny::optional<enum>");
    convs<tiny::optional<NoDef>, std::optional<NoDef>>("tiny::optional<NoDef>");
    convs<tiny::optional<FromOpt>, std::optional<FromOpt>>("tiny::optional<FromOpt>");
    convs<tiny::optional<int const>, std::optional<int const>>("tiny::optional<int const>");
    convs<tiny::optional<double const>, std::optional<double const>>("tiny::optional<double const>");
    convs<tiny::optional<std::string const>, std::optional<std::string const>>("tiny::optional<string const>");
    convs<tiny::optional<void (*)()>, std::optional<void (*)()>>("tiny::optional<function pointer>");
    convs<tiny::optional<Greedy>, std::optional<Greedy>>("tiny::optional<Greedy>");
    convs<tiny::optional<std::any>, std::optional<std::any>>("tiny::optional<any>");
    stat();
  }
#elif VH_PART == 10
  if (begin("observers and return types")) {
    #define OBS(T, ...) observers<__VA_ARGS__, std::optional<T>>(#__VA_ARGS__)
    using VI = tiny::optional_sentinel_via_type<int, SV>;
    using II = tiny::optional_inplace<int, Man<int>>;
    using SI = tiny::optional<int, -1>;
    using AM = tiny::optional<Agg, &Agg::a, -1>;
    using AD = tiny::optional<Agg, &Agg::b>;
    OBS(int, tiny::optional<int>); OBS(int, SI); OBS(int, tiny::optional_aip<int>); OBS(int, VI); OBS(int, II); OBS(int const, tiny::optional<int const>);
    OBS(double, tiny::optional<double>); OBS(double const, tiny::optional<double const>); OBS(bool, tiny::optional<bool>); OBS(int *, tiny::optional<int *>); OBS(int const *, tiny::optional<int const *>);
    OBS(float, tiny::optional<float>); OBS(std::string, tiny::optional<std::string>); OBS(std::string const, tiny::optional<std::string const>); OBS(std::unique_ptr<int>, tiny::optional<std::unique_ptr<int>>);
    OBS(Agg, tiny::optional<Agg>); OBS(Agg, AM); OBS(Agg, AD); OBS(EC, tiny::optional<EC>); OBS(std::any, tiny::optional<std::any>);
    // make_optional and deduction
    gRep = "make_optional";
    int i = 1;
    int const ci = 2;
    want(same<decltype(tiny::make_optional(5)), tiny::optional<int>>, "make_optional(5)");
    want(same<decltype(tiny::make_optional(i)), tiny::optional<int>>, "make_optional(int&)");
    want(same<decltype(tiny::make_optional(ci)), tiny::optional<int>>, "make_optional(int const&)");
    want(same<decltype(tiny::make_optional("abc")), tiny::optional<char const *>>, "make_optional(array) decays");
    want(same<decltype(tiny::make_optional<int>(i)), tiny::optional<int>>, "make_optional<int>(int&)");
    want(same<decltype(tiny::make_optional<std::string>(3, 'c')), tiny::optional<std::string>>, "make_optional<string>(3, 'c')");
    want(same<decltype(tiny::make_optional<std::vector<int>>({1, 2})), tiny::optional<std::vector<int>>>, "make_optional<vector>({1,2})");
    want(same<decltype(tiny::make_optional<int, -1>(3)), tiny::optional<int, -1>>, "make_optional<int,-1>(3)");
    want(same<decltype(tiny::make_optional<Agg, &Agg::a, -1>(Agg{1, 2})), tiny::optional<Agg, &Agg::a, -1>>, "make_optional<Agg,&Agg::a,-1>");
    want(same<decltype(tiny::optional(5)), tiny::optional<int>>, "deduction from int");
    want(same<decltype(tiny::optional(i)), tiny::optional<int>>, "deduction from int&");
    want(same<decltype(tiny::optional(ci)), tiny::optional<int>>, "deduction from int const&");
    want(same<decltype(tiny::optional("abc")), tiny::optional<char const *>>, "deduction from array");
    want(same<decltype(tiny::optional(std::declval<tiny::optional<double>>())), tiny::optional<double>>, "deduction from the same optional");
    want(same<decltype(tiny::optional(std::declval<tiny::optional<double> const &>())), tiny::optional<double>>, "deduction from a const optional");
    {
      auto v = tiny::make_optional<std::vector<int>>({1, 2, 3});
      want(v && v->size() == 3, "make_optional with initializer_list value");
      auto s = tiny::make_optional<std::string>(3, 'c');
      want(s && *s == "ccc", "make_optional with arguments");
    }
    stat();
    sample("decltype(std::declval<O const &&>().value()), noexcept(*std::declval<O &>()), decltype(tiny::make_optional(\"abc\"))");
  }
#endif
  return finish();
}
