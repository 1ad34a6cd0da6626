// The operation alphabet. Every operation is a generic functor instantiated for the tiny optional and for std::optional.
#pragma once
#include "engine.hpp"

namespace vh
{
// make_optional() for the type that the flavour uses (if it is spelled tiny::optional<...>).
template <class O>
struct Maker
{
  static constexpr bool available = false;
};
template <class P, auto s, auto i>
struct Maker<tiny::optional<P, s, i>>
{
  static constexpr bool available = !std::is_const_v<P>;
  template <class... A>
  static auto make(A &&... x)
  {
    return tiny::make_optional<P, s, i>(std::forward<A>(x)...);
  }
  template <class A, class Y>
  static auto makeIl(std::initializer_list<A> il, Y && y)
  {
    return tiny::make_optional<P, s, i>(il, std::forward<Y>(y));
  }
  template <class A>
  static auto makeDeduced(A && x)
  {
    if constexpr (std::is_same_v<tiny::optional<P, s, i>, tiny::optional<P>>) {
      return tiny::make_optional(std::forward<A>(x));
    }
    else {
      return tiny::make_optional<A, s, i>(std::forward<A>(x));
    }
  }
  static constexpr bool plain = std::is_same_v<tiny::optional<P, s, i>, tiny::optional<P>>;
  template <class A>
  static auto guide(A && x)
  {
    return tiny::optional{std::forward<A>(x)};
  }
};
template <class P>
struct Maker<std::optional<P>>
{
  static constexpr bool available = !std::is_const_v<P>;
  template <class... A>
  static auto make(A &&... x)
  {
    return std::make_optional<P>(std::forward<A>(x)...);
  }
  template <class A, class Y>
  static auto makeIl(std::initializer_list<A> il, Y && y)
  {
    return std::make_optional<P>(il, std::forward<Y>(y));
  }
  template <class A>
  static auto makeDeduced(A && x)
  {
    return std::make_optional(std::forward<A>(x));
  }
  template <class A>
  static auto guide(A && x)
  {
    return std::optional{std::forward<A>(x)};
  }
};

// A callback that records its argument, may throw and returns an int.
template <class T>
struct CbInt
{
  template <class X>
  int operator()(X && x) const
  {
    static_assert(std::is_same_v<rcvr<X>, std::remove_cv_t<T>>);
    int const id = Dom<T>::id(x);
    G.ev(E_CALL, addrOf(x), nullptr, catOf<X &&>() * 1000 + id);
    if (G.point()) {
      G.boom();
    }
    return id * 3;
  }
};
// Returns an optional of the type Opt; empty if the id is odd.
template <class T, class Opt>
struct CbOpt
{
  template <class X>
  Opt operator()(X && x) const
  {
    int const id = CbInt<T>{}(std::forward<X>(x));
    if (id % 2) {
      return Opt();
    }
    return Opt(id);
  }
};
// Takes the value by value (moved or copied out of the optional).
template <class T>
struct CbTake
{
  using V = std::remove_cv_t<T>;
  int operator()(V x) const
  {
    int const id = Dom<T>::id(x);
    G.ev(E_CALL, addrOf(x), nullptr, id);
    if (G.point()) {
      G.boom();
    }
    return id * 5;
  }
};
template <class T>
struct CbSelf
{
  using V = std::remove_cv_t<T>;
  template <class X>
  V operator()(X && x) const
  {
    G.ev(E_CALL, addrOf(x), nullptr, catOf<X &&>() * 1000 + Dom<T>::id(x));
    if (G.point()) {
      G.boom();
    }
    return V(std::forward<X>(x));
  }
};

#define VH_OP(NAME, ...)                                                                                               \
  e.add(                                                                                                               \
      NAME,                                                                                                            \
      [](auto & c) {                                                                                                   \
        using C = rcvr<decltype(c)>;                                                                                   \
        using O = typename C::O;                                                                                       \
        using T = typename C::T;                                                                                       \
        using V = std::remove_cv_t<T>;                                                                                 \
        using D = Dom<T>;                                                                                              \
        (void)sizeof(O);                                                                                               \
        (void)sizeof(V);                                                                                               \
        (void)sizeof(D);                                                                                               \
        __VA_ARGS__                                                                                                    \
      })
#define VH_OPL(LEN, NAME, ...)                                                                                         \
  e.add(                                                                                                               \
      NAME,                                                                                                            \
      [](auto & c) {                                                                                                   \
        using C = rcvr<decltype(c)>;                                                                                   \
        using O = typename C::O;                                                                                       \
        using T = typename C::T;                                                                                       \
        using V = std::remove_cv_t<T>;                                                                                 \
        using D = Dom<T>;                                                                                              \
        (void)sizeof(O);                                                                                               \
        (void)sizeof(V);                                                                                               \
        (void)sizeof(D);                                                                                               \
        __VA_ARGS__                                                                                                    \
      },                                                                                                               \
      LEN)

// A temporary of the payload type whose creation is neither logged nor a fault point.
template <class V>
struct Hold
{
  alignas(V) unsigned char mem[sizeof(V)];
  explicit Hold(int i)
  {
    Mute m;
    ::new (static_cast<void *>(mem)) V(Dom<V>::make(i));
  }
  ~Hold() { get().~V(); }
  V & get() { return *std::launder(reinterpret_cast<V *>(mem)); }
  Hold(Hold const &) = delete;
};

template <class C, class X>
void recAddr(C & c, X && x)
{
  c.rec(static_cast<void const volatile *>(std::addressof(x)) == static_cast<void const volatile *>(std::addressof(*c.a())));
  c.rec(catOf<X &&>());
}

template <class T>
inline constexpr bool defCtor = std::is_default_constructible_v<T>;
template <class T>
inline constexpr bool cc = std::is_copy_constructible_v<T>;
template <class T>
inline constexpr bool mc = std::is_move_constructible_v<T>;
template <class T>
inline constexpr bool ca = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>;
template <class T>
inline constexpr bool ma = std::is_move_constructible_v<T> && std::is_move_assignable_v<T>;

template <int i, class E>
void opsForValue(E & e)
{
  using T = typename E::T;
  using D = Dom<T>;
  using A = decltype(D::arg(0));
  std::string const n = std::to_string(i);

  VH_OP("A(in_place,x" + n + ")", c.renew([](void * p) { ::new (p) O(std::in_place, D::arg(i)); }););
  if constexpr (std::is_assignable_v<T &, A>) {
    VH_OP("A=x" + n, auto & r = (c.a() = D::arg(i)); c.rec(std::addressof(r) == std::addressof(c.a())););
  }
  if constexpr (std::is_convertible_v<A, T>) {
    VH_OP("A(x" + n + ")", c.renew([](void * p) { ::new (p) O(D::arg(i)); }););
  }
  else if constexpr (std::is_constructible_v<T, A> && std::is_constructible_v<T, A const &>) {
    VH_OP("A(explicit x" + n + ")", c.renew([](void * p) { ::new (p) O(D::arg(i)); }););
    if constexpr (i < 2) {
      VH_OP("A(explicit x const&" + n + ")", c.renew([](void * p) { A const x = D::arg(i); ::new (p) O(x); }););
      VH_OP("A(explicit x&" + n + ")", c.renew([](void * p) { A x = D::arg(i); ::new (p) O(x); }););
    }
  }
  if constexpr (std::is_arithmetic_v<T> && !std::is_same_v<std::remove_cv_t<T>, bool> && sizeof(T) < 16) {
    // Conversions that would be narrowing in braces.
    using W = std::conditional_t<std::is_integral_v<T>, long double, long double>;
    VH_OP("A.emplace(wide " + n + ")", recAddr(c, c.a().emplace(static_cast<W>(D::arg(i)))););
    VH_OP("A(in_place,wide " + n + ")", c.renew([](void * p) { ::new (p) O(std::in_place, static_cast<W>(D::arg(i))); }););
    VH_OP("A(wide " + n + ")", c.renew([](void * p) { ::new (p) O(static_cast<W>(D::arg(i))); }););
    if constexpr (!std::is_const_v<T>) {
      VH_OP("A=wide " + n, c.a() = static_cast<W>(D::arg(i)););
    }
    VH_OPL(1, "A.value_or(wide " + n + ")", c.rec(D::id(c.a().value_or(static_cast<W>(D::arg(i))))); c.rec(D::id(std::move(c.a()).value_or(static_cast<W>(D::arg(i))))););
  }
  if constexpr (std::is_same_v<T, std::vector<int>> && i == 0) {
    VH_OP("A.emplace(3,1)", recAddr(c, c.a().emplace(3, 1)); c.rec(static_cast<int>(c.a()->size())); c.a()->clear(););
    VH_OP("A(in_place,3,1)", c.renew([](void * p) { ::new (p) O(std::in_place, 3, 1); }); c.rec(static_cast<int>(c.a()->size())); c.a()->clear(););
    VH_OP("A(in_place,{1,2,3})", c.renew([](void * p) { ::new (p) O(std::in_place, {1, 2, 3}); }););
    VH_OP("A.emplace({1,2,3})", recAddr(c, c.a().emplace({1, 2, 3})););
    VH_OP("A=vector{}", c.a() = V{};);
  }
  VH_OP("A.emplace(x" + n + ")", recAddr(c, c.a().emplace(D::arg(i))););
  if constexpr (mc<T>) {
    VH_OP("A(T&&" + n + ")", c.renew([](void * p) { Hold<V> t(i); ::new (p) O(std::move(t.get())); }););
    VH_OP("A.emplace(T&&" + n + ")", Hold<V> t(i); recAddr(c, c.a().emplace(std::move(t.get()))););
  }
  if constexpr (cc<T>) {
    VH_OP("A(T const&" + n + ")", c.renew([](void * p) { Hold<V> t(i); V const & r = t.get(); ::new (p) O(r); }););
    VH_OP("A(in_place,T&" + n + ")", c.renew([](void * p) { Hold<V> t(i); ::new (p) O(std::in_place, t.get()); }););
  }
  if constexpr (ma<T>) {
    VH_OP("A=T&&" + n, Hold<V> t(i); auto & r = (c.a() = std::move(t.get())); c.rec(std::addressof(r) == std::addressof(c.a())); c.rec(D::id(t.get())););
    VH_OP("A=O(x" + n + ")", c.a() = O(std::in_place, D::arg(i)););
  }
  if constexpr (ca<T>) {
    VH_OP("A=T const&" + n, Hold<V> t(i); V const & x = t.get(); auto & r = (c.a() = x); c.rec(std::addressof(r) == std::addressof(c.a())););
  }
  if constexpr (!std::is_const_v<T>) {
    VH_OP("*A:set" + n, if (!c.a().has_value()) { c.rec(-9); return; } D::set(*c.a(), i););
    VH_OP("A->set" + n, if (!c.a().has_value()) { c.rec(-9); return; } D::set(*c.a().operator->(), i););
    VH_OP("A.value():set" + n, D::set(c.a().value(), i););
  }
  if constexpr (cc<T>) {
    VH_OPL(1, "A.value_or(T const&" + n + ")", Hold<V> t(i); V const & x = t.get(); c.rec(D::id(std::as_const(c.a()).value_or(x))); c.rec(D::id(x)););
    VH_OPL(1, "move(A).value_or(T&" + n + ")", Hold<V> t(i); V & x = t.get(); c.rec(D::id(std::move(c.a()).value_or(x))); c.rec(D::id(x)););
    VH_OPL(1, "A.value_or(T&&" + n + ")", Hold<V> t(i); c.rec(D::id(c.a().value_or(std::move(t.get())))); c.rec(D::id(t.get())););
    VH_OPL(1, "move(const A).value_or(T&" + n + ")", Hold<V> t(i); c.rec(D::id(std::move(std::as_const(c.a())).value_or(t.get()))); c.rec(D::id(t.get())););
  }
  if constexpr (mc<T>) {
    VH_OPL(1, "move(A).value_or(T&&" + n + ")", Hold<V> t(i); c.rec(D::id(std::move(c.a()).value_or(std::move(t.get())))); c.rec(D::id(t.get())););
    if constexpr (std::is_convertible_v<A, T>) {
      VH_OPL(1, "move(A).value_or(x" + n + ")", c.rec(D::id(std::move(c.a()).value_or(D::arg(i)))););
    }
  }
  if constexpr (D::eq) {
    VH_OP(
        "A==/!=x" + n, Hold<V> t(i); V const & x = t.get(); auto const & a = c.a(); c.rec(a == x); c.rec(x == a); c.rec(a != x); c.rec(x != a););
  }
  if constexpr (D::less) {
    VH_OP(
        "A</<=/>/>=x" + n, Hold<V> t(i); V const & x = t.get(); auto const & a = c.a(); c.rec(a < x); c.rec(x < a); c.rec(a <= x); c.rec(x <= a);
        c.rec(a > x); c.rec(x > a); c.rec(a >= x); c.rec(x >= a););
  }
  if constexpr (Maker<typename E::S>::available) {
    VH_OP("A(make_optional<T>(x" + n + "))", c.renew([](void * p) { ::new (p) O(Maker<O>::make(D::arg(i))); }););
    if constexpr (mc<T> && !std::is_volatile_v<T>) {
      VH_OPL(1, "A(make_optional(T&&" + n + "))", c.renew([](void * p) { Hold<V> t(i); ::new (p) O(Maker<O>::makeDeduced(std::move(t.get()))); }););
      if constexpr (Maker<typename E::S>::plain && D::guide) {
        VH_OPL(
            1, "A(optional{T&&" + n + "})", c.renew([](void * p) {
              Hold<V> t(i);
              auto o = Maker<O>::guide(std::move(t.get()));
              static_assert(std::is_same_v<decltype(o), O>);
              ::new (p) O(std::move(o));
            }););
      }
    }
  }
  // The same with arguments of another type in the other value categories.
  if constexpr (i < 2) {
    if constexpr (std::is_constructible_v<T, A &> && std::is_constructible_v<T, A const &>) {
      VH_OP("A(in_place,x&" + n + ")", c.renew([](void * p) { A x = D::arg(i); ::new (p) O(std::in_place, x); }););
      VH_OP("A(in_place,x const&" + n + ")", c.renew([](void * p) { A const x = D::arg(i); ::new (p) O(std::in_place, x); }););
      VH_OP("A.emplace(x&" + n + ")", A x = D::arg(i); recAddr(c, c.a().emplace(x)););
      VH_OP("A.emplace(x const&" + n + ")", A const x = D::arg(i); recAddr(c, c.a().emplace(x)););
      if constexpr (std::is_assignable_v<T &, A &> && std::is_assignable_v<T &, A const &>) {
        VH_OP("A=x&" + n, A x = D::arg(i); auto & r = (c.a() = x); c.rec(std::addressof(r) == std::addressof(c.a())););
        VH_OP("A=x const&" + n, A const x = D::arg(i); auto & r = (c.a() = x); c.rec(std::addressof(r) == std::addressof(c.a())););
        VH_OP("A=move(x const)" + n, A const x = D::arg(i); c.a() = std::move(x););
      }
      if constexpr (std::is_convertible_v<A &, T> && std::is_convertible_v<A const &, T>) {
        VH_OP("A(x&" + n + ")", c.renew([](void * p) { A x = D::arg(i); ::new (p) O(x); }););
        VH_OP("A(x const&" + n + ")", c.renew([](void * p) { A const x = D::arg(i); ::new (p) O(x); }););
        VH_OP("A(move(x const)" + n + ")", c.renew([](void * p) { A const x = D::arg(i); ::new (p) O(std::move(x)); }););
        if constexpr (cc<T>) {
          VH_OPL(1, "A.value_or(x&" + n + ")", A x = D::arg(i); c.rec(D::id(std::as_const(c.a()).value_or(x))););
          VH_OPL(1, "A.value_or(x" + n + ")", c.rec(D::id(std::as_const(c.a()).value_or(D::arg(i)))););
        }
        if constexpr (mc<T>) {
          VH_OPL(1, "move(A).value_or(x const&" + n + ")", A const x = D::arg(i); c.rec(D::id(std::move(c.a()).value_or(x))););
        }
      }
      if constexpr (Maker<typename E::S>::available) {
        VH_OP("A(make_optional<T>(x&" + n + "))", c.renew([](void * p) { A x = D::arg(i); ::new (p) O(Maker<O>::make(x)); }););
        VH_OP("A(make_optional<T>(x const&" + n + "))", c.renew([](void * p) { A const x = D::arg(i); ::new (p) O(Maker<O>::make(x)); }););
      }
    }
  }
  if constexpr (D::ilist) {
    if constexpr (i == 0) {
      VH_OP("A(in_place,{1,2},int&)", c.renew([](void * p) { int y = 1; ::new (p) O(std::in_place, {1, 2}, y); }););
      VH_OP("A.emplace({1,1},int const&)", int const y = 0; recAddr(c, c.a().emplace({1, 1}, y)););
      VH_OP("A.emplace({1,1},int)", recAddr(c, c.a().emplace({1, 1}, 1)););
      VH_OP("A.emplace({1,1},int&)", int y = 0; recAddr(c, c.a().emplace({1, 1}, y)););
      VH_OP("A(in_place,{1,2},int const&)", c.renew([](void * p) { int const y = 1; ::new (p) O(std::in_place, {1, 2}, y); }););
      if constexpr (Maker<typename E::S>::available) {
        VH_OP("A(make_optional<T>({1,3},int&&))", c.renew([](void * p) { ::new (p) O(Maker<O>::makeIl({1, 3}, 1)); }););
        VH_OP("A(make_optional<T>({1,3},int const&))", c.renew([](void * p) { int const y = 0; ::new (p) O(Maker<O>::makeIl({1, 3}, y)); }););
      }
      VH_OP("A.emplace(x const&,int&)", A const x = D::arg(i); int y = 1; recAddr(c, c.a().emplace(x, y)););
      VH_OP("A(in_place,x&,int const&)", c.renew([](void * p) { A x = D::arg(i); int const y = 1; ::new (p) O(std::in_place, x, y); }););
    }
    VH_OP("A(in_place,x" + n + ",1)", c.renew([](void * p) { ::new (p) O(std::in_place, D::arg(i), 1); }););
    VH_OP("A.emplace(x" + n + ",1)", recAddr(c, c.a().emplace(D::arg(i), 1)););
    VH_OP("A(in_place,{" + n + ",2},1)", c.renew([](void * p) { ::new (p) O(std::in_place, {i, 2}, 1); }););
    VH_OP("A.emplace({" + n + ",1})", recAddr(c, c.a().emplace({i, 1})););
    if constexpr (Maker<typename E::S>::available) {
      VH_OP("A(make_optional<T>({" + n + ",3},1))", c.renew([](void * p) { int y = 1; ::new (p) O(Maker<O>::makeIl({i, 3}, y)); }););
    }
  }
}

template <class E>
void registerOps(E & e)
{
  using T = typename E::T;
  using D = Dom<T>;

  opsForValue<0>(e);
  VH_OP("A.reset()", c.a().reset(););
  VH_OP("A()", c.renew([](void * p) { ::new (p) O(); }););
  VH_OP("fill;A()", c.renewFilled(0x5A, [](void * p) { ::new (p) O(); }););
  VH_OP("A(nullopt)", c.renew([](void * p) { ::new (p) O(std::nullopt); }););
  VH_OP("A=nullopt", auto & r = (c.a() = std::nullopt); c.rec(std::addressof(r) == std::addressof(c.a())););
  if constexpr (defCtor<T> && D::tracked) {
    VH_OP("A(in_place)", c.renew([](void * p) { ::new (p) O(std::in_place); }););
    VH_OP("A.emplace()", recAddr(c, c.a().emplace()););
  }
  if constexpr (cc<T>) {
    VH_OP("A(B)", c.renew([&](void * p) { ::new (p) O(std::as_const(c.b())); }););
    VH_OP("A(B&)", c.renew([&](void * p) { ::new (p) O(c.b()); }););
    VH_OP("fill;A(B)", c.renewFilled(0x5A, [&](void * p) { ::new (p) O(std::as_const(c.b())); }););
    VH_OP("A(move(const B))", c.renew([&](void * p) { ::new (p) O(std::move(std::as_const(c.b()))); }););
    VH_OP("A(*B)", if (!c.b().has_value()) { c.rec(-9); return; } c.renew([&](void * p) { ::new (p) O(*std::as_const(c.b())); }););
    VH_OP("A.emplace(*B)", if (!c.b().has_value()) { c.rec(-9); return; } recAddr(c, c.a().emplace(*std::as_const(c.b()))););
    VH_OP("V v(*A)", if (!c.a().has_value()) { c.rec(-9); return; } V v(*std::as_const(c.a())); c.rec(D::id(v)););
    VH_OP("V v(A.value())", V v(std::as_const(c.a()).value()); c.rec(D::id(v)););
    VH_OP("V v(move(const A).value())", V v(std::move(std::as_const(c.a())).value()); c.rec(D::id(v)););
    VH_OP("O o(A)", O o(std::as_const(c.a())); c.rec(o.has_value()); c.rec(o.has_value() ? D::id(*o) : -9););
  }
  if constexpr (mc<T>) {
    VH_OP("A(move(B))", c.renew([&](void * p) { ::new (p) O(std::move(c.b())); }););
    VH_OP("fill;A(move(B))", c.renewFilled(0x5A, [&](void * p) { ::new (p) O(std::move(c.b())); }););
    VH_OP("A(move(*B))", if (!c.b().has_value()) { c.rec(-9); return; } c.renew([&](void * p) { ::new (p) O(std::move(*c.b())); }););
    VH_OP("A.emplace(*move(B))", if (!c.b().has_value()) { c.rec(-9); return; } recAddr(c, c.a().emplace(*std::move(c.b()))););
    VH_OP("V v(*move(A))", if (!c.a().has_value()) { c.rec(-9); return; } V v(*std::move(c.a())); c.rec(D::id(v)););
    VH_OP("V v(move(A).value())", V v(std::move(c.a()).value()); c.rec(D::id(v)););
    VH_OP("O o(move(A))", O o(std::move(c.a())); c.rec(o.has_value()); c.rec(o.has_value() ? D::id(*o) : -9););
  }
  if constexpr (ca<T>) {
    VH_OP("A=B", auto & r = (c.a() = std::as_const(c.b())); c.rec(std::addressof(r) == std::addressof(c.a())););
    VH_OP("A=B&", c.a() = c.b(););
    VH_OP("A=A", auto & s = c.a(); c.a() = s;);
    VH_OP("A=move(const B)", c.a() = std::move(std::as_const(c.b())););
    VH_OP("A=*A", if (!c.a().has_value()) { c.rec(-9); return; } c.a() = *std::as_const(c.a()););
    VH_OP("A=*B", if (!c.b().has_value()) { c.rec(-9); return; } c.a() = *c.b(););
    VH_OPL(2, "exchange(A,B)", { O o(std::exchange(c.a(), c.b())); c.rec(o.has_value()); c.rec(o.has_value() ? D::id(*o) : -9); });
  }
  if constexpr (ma<T>) {
    VH_OP("A=move(B)", auto & r = (c.a() = std::move(c.b())); c.rec(std::addressof(r) == std::addressof(c.a())););
    VH_OP("A=move(A)", auto & s = c.a(); c.a() = std::move(s););
    VH_OP("A={}", c.a() = {};);
    VH_OP("A=O()", c.a() = O(););
    VH_OP("A=move(*A)", if (!c.a().has_value()) { c.rec(-9); return; } c.a() = std::move(*c.a()););
    VH_OP("A=*move(B)", if (!c.b().has_value()) { c.rec(-9); return; } c.a() = *std::move(c.b()););
    VH_OPL(2, "std::swap(A,B)", std::swap(c.a(), c.b()););
  }
  if constexpr (mc<T> && std::is_swappable_v<T>) {
    VH_OP("A.swap(B)", c.a().swap(c.b()););
    VH_OP("B.swap(A)", c.b().swap(c.a()););
    VH_OP("A.swap(A)", c.a().swap(c.a()););
    VH_OP("swap(A,B)", using std::swap; swap(c.a(), c.b()););
    VH_OP("swap(A,A)", using std::swap; swap(c.a(), c.a()););
  }
  VH_OP(
      "observe A", auto & a = c.a(); auto const & ca_ = c.a(); c.rec(a.has_value()); c.rec(static_cast<bool>(a)); c.rec(a ? 1 : 0); if (!a) { return; }
      recAddr(c, *a); recAddr(c, *ca_); recAddr(c, *std::move(a)); recAddr(c, *std::move(ca_)); recAddr(c, a.value()); recAddr(c, ca_.value());
      recAddr(c, std::move(a).value()); recAddr(c, std::move(ca_).value()); recAddr(c, *a.operator->()); recAddr(c, *ca_.operator->());
      c.rec(D::id(*ca_.operator->())););
  VH_OP("A.value()&", recAddr(c, c.a().value()););
  VH_OP("A.value()const&", recAddr(c, std::as_const(c.a()).value()););
  VH_OP("A.value()&&", recAddr(c, std::move(c.a()).value()););
  VH_OP("A.value()const&&", recAddr(c, std::move(std::as_const(c.a())).value()););

  // Monadic operations. The results are compared by value.
  VH_OPL(1, "A.transform(f)", auto r = doTransform(c.a(), CbInt<T>{}); c.rec(r.has_value() ? *r : -9););
  VH_OPL(1, "const A.transform(f)", auto r = doTransform(std::as_const(c.a()), CbInt<T>{}); c.rec(r.has_value() ? *r : -9););
  VH_OPL(1, "move(A).transform(f)", auto r = doTransform(std::move(c.a()), CbInt<T>{}); c.rec(r.has_value() ? *r : -9););
  VH_OPL(1, "move(const A).transform(f)", auto r = doTransform(std::move(std::as_const(c.a())), CbInt<T>{}); c.rec(r.has_value() ? *r : -9););
  VH_OPL(1, "A.and_then(f)", auto r = doAndThen(c.a(), CbOpt<T, std::optional<int>>{}); c.rec(r.has_value() ? *r : -9););
  VH_OPL(1, "const A.and_then(f)", auto r = doAndThen(std::as_const(c.a()), CbOpt<T, std::optional<int>>{}); c.rec(r.has_value() ? *r : -9););
  VH_OPL(1, "move(A).and_then(f)", auto r = doAndThen(std::move(c.a()), CbOpt<T, std::optional<int>>{}); c.rec(r.has_value() ? *r : -9););
  VH_OPL(
      1, "move(const A).and_then(f)", auto r = doAndThen(std::move(std::as_const(c.a())), CbOpt<T, std::optional<int>>{});
      c.rec(r.has_value() ? *r : -9););
  if constexpr (cc<T>) {
    VH_OPL(1, "A.transform(self)", auto r = doTransform(c.a(), CbSelf<T>{}); c.rec(r.has_value() ? D::id(*r) : -9););
  }
  if constexpr (mc<T> && !std::is_const_v<T>) {
    VH_OPL(1, "move(A).transform(take)", auto r = doTransform(std::move(c.a()), CbTake<T>{}); c.rec(r.has_value() ? *r : -9););
    VH_OPL(1, "move(A).transform(self)", auto r = doTransform(std::move(c.a()), CbSelf<T>{}); c.rec(r.has_value() ? D::id(*r) : -9););
  }
#if __cplusplus >= 202002L
  if constexpr (cc<T>) {
    VH_OPL(
        1, "A.or_else(()->B)", auto & b = c.b(); auto r = doOrElse(std::as_const(c.a()), [&b] { G.ev(E_CALL, nullptr, nullptr, 1); if (G.point()) G.boom(); return b; });
        static_assert(std::is_same_v<decltype(r), O>); c.rec(r.has_value() ? D::id(*r) : -9););
  }
  if constexpr (cc<T>) {
    VH_OPL(
        1, "nonconst A.or_else(()->x)", auto r = doOrElse(c.a(), []() -> O { G.ev(E_CALL, nullptr, nullptr, 1); if (G.point()) G.boom(); return O(std::in_place, D::arg(0)); });
        c.rec(r.has_value() ? D::id(*r) : -9););
  }
  if constexpr (mc<T>) {
    VH_OPL(
        1, "move(A).or_else(()->move(B))", auto & b = c.b();
        auto r = doOrElse(std::move(c.a()), [&b]() -> O { G.ev(E_CALL, nullptr, nullptr, 1); if (G.point()) G.boom(); return std::move(b); });
        static_assert(std::is_same_v<decltype(r), O>); c.rec(r.has_value() ? D::id(*r) : -9););
    VH_OPL(
        1, "move(A).or_else(()->x)", auto r = doOrElse(std::move(c.a()), []() -> O { G.ev(E_CALL, nullptr, nullptr, 1); if (G.point()) G.boom(); return O(std::in_place, D::arg(0)); });
        c.rec(r.has_value() ? D::id(*r) : -9););
  }
#endif
  if constexpr (std::is_default_constructible_v<std::hash<std::remove_cv_t<T>>> && !std::is_volatile_v<T>) {
    VH_OP("hash(A)", auto const & a = c.a(); c.rec(std::hash<O>{}(a) == (a.has_value() ? std::hash<V>{}(*a) : std::hash<O>{}(O())) ? 1 : 0););
  }
  if constexpr (D::cmpNull) {
  VH_OP(
      "A vs nullopt", auto const & a = c.a(); c.rec(a == std::nullopt); c.rec(std::nullopt == a); c.rec(a != std::nullopt); c.rec(std::nullopt != a);
      c.rec(a < std::nullopt); c.rec(std::nullopt < a); c.rec(a <= std::nullopt); c.rec(std::nullopt <= a); c.rec(a > std::nullopt);
      c.rec(std::nullopt > a); c.rec(a >= std::nullopt); c.rec(std::nullopt >= a););
  }
  if constexpr (D::eq) {
    VH_OP("A==/!=B", auto const & a = c.a(); auto const & b = c.b(); c.rec(a == b); c.rec(a != b););
  }
  if constexpr (D::less) {
    VH_OP("A</<=/>/>=B", auto const & a = c.a(); auto const & b = c.b(); c.rec(a < b); c.rec(a <= b); c.rec(a > b); c.rec(a >= b););
  }
  if constexpr (D::N > 1) {
    opsForValue<1>(e);
  }
  if constexpr (D::N > 2) {
    opsForValue<2>(e);
  }
  if constexpr (D::N > 3) {
    opsForValue<3>(e);
  }
}
} // namespace vh
