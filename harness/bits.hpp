// Enumerates bit patterns of a payload and stores each of them in every way (C04, C05).
#pragma once
#include "common.hpp"
using namespace vh;

template <class T, class B>
struct Raw
{
  using Bits = B;
  using Payload = T;
  static T make(B b)
  {
    std::remove_cv_t<T> r;
    std::memcpy(&r, &b, sizeof r);
    return r;
  }
  static B bits(T const & t)
  {
    B b;
    std::memcpy(&b, const_cast<void *>(static_cast<void const volatile *>(std::addressof(t))), sizeof b);
    return b;
  }
};
// The flag is a member of the payload; the neighbours must keep their values, too.
template <class M, class B>
struct Holder
{
  unsigned char a;
  M m;
  short z;
};
template <class M, class B>
struct Member
{
  using Bits = B;
  using Payload = Holder<M, B>;
  static Payload make(B b)
  {
    Payload r;
    r.a = static_cast<unsigned char>(b ^ 0x5A);
    std::memcpy(&r.m, &b, sizeof b);
    r.z = static_cast<short>(b ^ 0x7E7E);
    return r;
  }
  static B bits(Payload const & t)
  {
    B b;
    std::memcpy(&b, &t.m, sizeof b);
    if (t.a != static_cast<unsigned char>(b ^ 0x5A) || t.z != static_cast<short>(b ^ 0x7E7E)) {
      return ~b;
    }
    return b;
  }
};

template <class B>
[[gnu::noinline, gnu::cold]] void bad(B b, char const * op, char const * what)
{
  char p[64];
  std::snprintf(p, sizeof p, "bits=0x%llx", static_cast<unsigned long long>(b));
  fail("VALUE", p, std::string(op) + ": " + what);
}

template <class O, class C>
struct Checker
{
  using B = typename C::Bits;
  using P = typename C::Payload;
  static constexpr bool asg = std::is_copy_assignable_v<P>;
  B other; // some other legal pattern
  P othr;

  [[gnu::always_inline]] void chk(O & o, B b, char const * op) const
  {
    opaque(&o);
    O const & c = o;
    if (!c.has_value()) {
      bad(b, op, "the optional is empty after storing the value");
    }
    else if (C::bits(*c) != b) {
      bad(b, op, "the stored value was altered");
    }
    opaque(&o);
  }
  [[gnu::always_inline]] void chkE(O & o, B b, char const * op) const
  {
    opaque(&o);
    if (o.has_value()) {
      bad(b, op, "the optional is not empty");
    }
    opaque(&o);
  }
  static constexpr int OPS = asg ? 14 : 4;

  [[gnu::noinline]] void one(B b) const
  {
    ++gC.executions;
    {
      O o(C::make(b));
      chk(o, b, "value ctor");
      opaque(&o);
      O c(o);
      chk(c, b, "copy ctor");
      O m(std::move(o));
      chk(m, b, "move ctor");
      c.reset();
      chkE(c, b, "reset");
      if (!static_cast<bool>(m) || C::bits(m.value()) != b || C::bits(*m.operator->()) != b || C::bits(m.value_or(othr)) != b) {
        bad(b, "observers", "wrong value");
      }
      if (C::bits(c.value_or(m.value())) != b) {
        bad(b, "value_or of empty", "wrong value");
      }
      if constexpr (asg) {
        c = m;
        chk(c, b, "copy assign over empty");
        c = othr;
        chk(c, other, "assign other");
        c.swap(m);
        chk(c, b, "swap engaged");
        chk(m, other, "swap engaged (rhs)");
        O e(std::nullopt);
        chkE(e, b, "nullopt ctor");
        e.swap(c);
        chk(e, b, "swap with empty");
        chkE(c, b, "swap with empty (rhs)");
        c = std::move(e);
        chk(c, b, "move assign over empty");
        m = c;
        chk(m, b, "copy assign over engaged");
      }
    }
    if constexpr (asg) {
      ++gC.executions;
      O o;
      chkE(o, b, "default ctor");
      o = C::make(b);
      chk(o, b, "assign value over empty");
      o = std::nullopt;
      chkE(o, b, "assign nullopt");
      o.emplace(C::make(b));
      chk(o, b, "emplace over empty");
      o = othr;
      opaque(&o);
      o = C::make(b);
      chk(o, b, "assign value over engaged");
      o.emplace(C::make(b));
      chk(o, b, "emplace over engaged");
      O q(std::in_place, C::make(b));
      chk(q, b, "in_place ctor");
      q = {};
      chkE(q, b, "assign {}");
    }
  }
};

enum Mode
{
  ALL, // every pattern
  WIN, // every pattern that differs from one of the anchors only within one window of W consecutive bits
};

template <class O, class C>
void run(char const * name, std::vector<typename C::Bits> reserved, std::vector<typename C::Bits> anchors, typename C::Bits other, Mode mode, int W, bool (*skip)(typename C::Bits) = nullptr, int hamming = 4)
{
  using B = typename C::Bits;
  if (!begin(name)) {
    return;
  }
  Checker<O, C> ch{other, C::make(other)};
  auto legal = [&](B b) {
    for (B r : reserved) {
      if (r == b) {
        return false;
      }
    }
    return !(skip && skip(b));
  };
  if (!gReplay.empty()) {
    ch.one(static_cast<B>(std::strtoull(gReplay.c_str() + 5, nullptr, 16)));
    stat();
    return;
  }
  constexpr int N = sizeof(B) * 8;
  long n = 0;
  if (mode == ALL) {
    std::uint64_t const total = std::uint64_t(1) << N;
    std::uint64_t const lo = total / static_cast<unsigned>(gShards) * static_cast<unsigned>(gShard);
    std::uint64_t const hi = gShard + 1 == gShards ? total : total / static_cast<unsigned>(gShards) * static_cast<unsigned>(gShard + 1);
    for (std::uint64_t x = lo; x < hi && gFails < 20; ++x) {
      B const b = static_cast<B>(x);
      if (legal(b)) {
        ch.one(b);
        ++n;
      }
    }
  }
  else {
    // Window position 'w' fixes bits [w, w+W). To avoid duplicates the lowest bit of the window must differ from the anchor
    // (except in the last window).
    int item = 0;
    for (B a : anchors) {
      for (int w = 0; w + W <= N; ++w) {
        if (item++ % gShards != gShard) {
          continue;
        }
        bool const last = w + W == N;
        std::uint64_t const cnt = std::uint64_t(1) << W;
        for (std::uint64_t x = last ? 0 : 1; x < cnt && gFails < 20; x += last ? 1 : 2) {
          B const b = static_cast<B>(a ^ static_cast<B>(x << w));
          if (legal(b)) {
            ch.one(b);
            ++n;
          }
        }
      }
      // Hamming distance up to 4 anywhere (split by the highest differing bit).
      for (int i = 0; i < N; ++i) {
        if (i % gShards != gShard) continue;
        for (int j = 0; j <= i; ++j)
          for (int k = hamming > 2 ? 0 : j; k <= j; ++k)
            for (int l = hamming > 3 ? 0 : k; l <= k; ++l) {
              B const b = static_cast<B>(a ^ (B(1) << i) ^ (B(1) << j) ^ (B(1) << k) ^ (B(1) << l));
              if (legal(b)) {
                ch.one(b);
                ++n;
              }
            }
      }
    }
  }
  gC.states = n + 1; // every value, and empty
  gC.transitions = n * (std::is_copy_assignable_v<typename C::Payload> ? 24 : 6);
  stat();
  if (gShard == 0) {
    char s[200];
    std::snprintf(s, sizeof s, "pattern 0x%llx: ctor, copy, move, assignments over empty/engaged, emplace, swap, reset, value_or", static_cast<unsigned long long>(other));
    sample(s);
  }
}

