// C07: three adjacent optionals in guarded memory. Explores every operation in every reachable state (and all sequences up to a
// depth), and compares all bytes: the payload's image, the untouched neighbours, the guards, and the address of the value.
#include "common.hpp"
#include <array>
using namespace vh;

enum class ManE : int { empty = 0x01020304 };
template <>
struct tiny::optional_flag_manipulator<ManE> : tiny::sentinel_flag_manipulator<ManE, ManE::empty>
{
};

template <class M>
struct Vals // two legal values of the flag member that are close to the reserved one
{
  static M at(int i)
  {
    if constexpr (std::is_same_v<M, bool>) {
      return i == 1;
    }
    else {
      using B = std::conditional_t<sizeof(M) == 1, std::uint8_t, std::conditional_t<sizeof(M) == 2, std::uint16_t, std::conditional_t<sizeof(M) == 4, std::uint32_t, std::uint64_t>>>;
      B b;
      if constexpr (std::is_same_v<M, float>) b = i ? 0x7fedcba8u : 0x7fc00000u;
      else if constexpr (std::is_same_v<M, double>) b = i ? 0x7ff8fedcba987655u : 0x7ff8fedcb0000000u;
      else if constexpr (std::is_pointer_v<M>) b = i ? static_cast<B>(sizeof(M) == 8 ? 0xffff800000000000ull : 0xfffffff6u) : 0;
      else if constexpr (std::is_same_v<M, ManE>) b = i ? 0x01020305 : 0x00020304;
      else b = static_cast<B>(i ? static_cast<B>(-2) : static_cast<B>(B(1) << (sizeof(B) * 8 - 1)));
      M m;
      std::memcpy(&m, &b, sizeof m);
      return m;
    }
  }
};

template <class M, std::size_t K, std::size_t N>
struct Blk
{
  std::array<unsigned char, K> pre;
  M m;
  std::array<unsigned char, N> post;
};
template <class M, std::size_t N>
struct Blk<M, 0, N>
{
  M m;
  std::array<unsigned char, N> post;
};

template <class P>
struct Img;
template <class M, std::size_t K, std::size_t N>
struct Img<Blk<M, K, N>>
{
  using P = Blk<M, K, N>;
  static P make(int i)
  {
    P p;
    std::memset(static_cast<void *>(&p), 0, sizeof p);
    if constexpr (K > 0) {
      for (std::size_t j = 0; j < K; ++j) p.pre[j] = static_cast<unsigned char>(17 * (i + 1) + 3 * j);
    }
    M const m = Vals<M>::at(i);
    std::memcpy(&p.m, &m, sizeof m);
    for (std::size_t j = 0; j < N; ++j) p.post[j] = static_cast<unsigned char>(0xA0 + 29 * (i + 1) + 5 * j);
    return p;
  }
  static bool same(P const & a, P const & b)
  {
    if constexpr (K > 0) {
      if (a.pre != b.pre) return false;
    }
    return std::memcmp(&a.m, &b.m, sizeof(M)) == 0 && a.post == b.post;
  }
};
template <class M>
struct Scalar;
template <class M>
struct Img<Scalar<M>>
{
  using P = M;
  static P make(int i) { return Vals<M>::at(i); }
  static bool same(P const & a, P const & b) { return std::memcmp(&a, &b, sizeof a) == 0; }
};
template <std::size_t N>
struct Bytes
{
  std::array<unsigned char, N> b;
};
template <std::size_t N>
struct Img<Bytes<N>>
{
  using P = Bytes<N>;
  static P make(int i)
  {
    P p;
    for (std::size_t j = 0; j < N; ++j) p.b[j] = static_cast<unsigned char>(i ? 0xFF : 7 * j);
    return p;
  }
  static bool same(P const & a, P const & b) { return a.b == b.b; }
};

struct Step
{
  int op, pos;
};

template <class O, class I>
struct World
{
  using P = typename I::P;
  static constexpr std::size_t G = 64;
  static constexpr std::size_t AL = alignof(O);
  static constexpr std::size_t OFF = ((G + 127) / 128 * 128 > AL * 2 ? (G + 127) / 128 * 128 : AL * 2) + AL;
  alignas(AL * 2 > 128 ? AL * 2 : 128) unsigned char buf[OFF + 3 * sizeof(O) + G];
  unsigned char guard;
  int model[3];
  void const * addr[3];

  O & o(int i) { return *std::launder(reinterpret_cast<O *>(buf + OFF + static_cast<std::size_t>(i) * sizeof(O))); }
  unsigned char * raw(int i) { return buf + OFF + static_cast<std::size_t>(i) * sizeof(O); }

  static constexpr int OPS = 26;
  static char const * opName(int k)
  {
    static char const * n[] = {"emplace v0", "emplace v1", "assign const lvalue v0", "assign rvalue v1", "reset", "assign nullopt", "copy-assign next", "move-assign next", "swap next",
        "free swap next", "self copy-assign", "assign own value", "destroy+default ctor", "destroy+value ctor v0", "destroy+in_place ctor v1", "destroy+copy ctor next", "destroy+move ctor next", "assign {}", "has_value/bool", "deref/arrow/value",
        "value_or", "copied from", "const and_then/transform", "self move-assign", "write through reference v0", "swap self"};
    return n[k];
  }
  bool mutates(int k) const { return !(k >= 18 && k <= 22); }

  void init(unsigned char fill, unsigned char g)
  {
    guard = g;
    std::memset(buf, g, sizeof buf);
    for (int i = 0; i < 3; ++i) {
      std::memset(raw(i), fill, sizeof(O));
    }
    opaque(buf);
    for (int i = 0; i < 3; ++i) {
      ::new (static_cast<void *>(raw(i))) O();
      model[i] = -1;
      addr[i] = nullptr;
    }
  }
  void done()
  {
    for (int i = 0; i < 3; ++i) {
      o(i).~O();
    }
  }

  // Returns an error or nullptr.
  char const * step(Step s)
  {
    int const a = s.pos, b = (s.pos + 1) % 3;
    O & x = o(a);
    O & y = o(b);
    O const & cx = x;
    P const v0 = I::make(0);
    unsigned char before[3 * sizeof(O)];
    std::memcpy(before, raw(0), sizeof before);
    bool touchesB = false;
    bool fresh = false; // the value may have a new object, but its address stays the same by construction of the slot
    char const * e = nullptr;
    switch (s.op) {
      case 0: x.emplace(I::make(0)); model[a] = 0; break;
      case 1: x.emplace(I::make(1)); model[a] = 1; break;
      case 2: x = v0; model[a] = 0; break;
      case 3: x = I::make(1); model[a] = 1; break;
      case 4: x.reset(); model[a] = -1; break;
      case 5: x = std::nullopt; model[a] = -1; break;
      case 6: x = static_cast<O const &>(y); model[a] = model[b]; break;
      case 7: x = std::move(y); model[a] = model[b]; touchesB = true; break;
      case 8: x.swap(y); std::swap(model[a], model[b]); touchesB = true; break;
      case 9: { using std::swap; swap(x, y); std::swap(model[a], model[b]); touchesB = true; break; }
      case 10: x = cx; break;
      case 11: if (model[a] >= 0) x = *cx; break;
      case 12: x.~O(); fresh = true; ::new (static_cast<void *>(raw(a))) O(); model[a] = -1; break;
      case 13: x.~O(); fresh = true; ::new (static_cast<void *>(raw(a))) O(v0); model[a] = 0; break;
      case 14: x.~O(); fresh = true; ::new (static_cast<void *>(raw(a))) O(std::in_place, I::make(1)); model[a] = 1; break;
      case 15: x.~O(); fresh = true; ::new (static_cast<void *>(raw(a))) O(static_cast<O const &>(y)); model[a] = model[b]; break;
      case 16: x.~O(); fresh = true; ::new (static_cast<void *>(raw(a))) O(std::move(y)); model[a] = model[b]; touchesB = true; break;
      case 17: x = {}; model[a] = -1; break;
      case 18: if (x.has_value() != (model[a] >= 0) || static_cast<bool>(cx) != (model[a] >= 0)) e = "emptiness is wrong"; break;
      case 19:
        if (model[a] >= 0 && !(I::same(*cx, I::make(model[a])) && I::same(*(cx.operator->()), I::make(model[a])) && I::same(cx.value(), I::make(model[a])))) e = "value is wrong";
        if (model[a] >= 0 && (std::addressof(*x) != std::addressof(*cx) || std::addressof(x.value()) != x.operator->())) e = "accessors yield different addresses";
        break;
      case 20: if (!I::same(cx.value_or(v0), I::make(model[a] < 0 ? 0 : model[a]))) e = "value_or is wrong"; break;
      case 21: {
        O c(cx);
        if (c.has_value() != (model[a] >= 0) || (c && !I::same(*c, I::make(model[a])))) e = "copy is wrong";
        c = cx;
        if (c.has_value() != (model[a] >= 0) || (c && !I::same(*c, I::make(model[a])))) e = "copy is wrong";
        break;
      }
      case 22: {
        int n = 0;
        auto r = cx.and_then([&](P const & p) { ++n; return tiny::optional<int, -1>(std::addressof(p) == std::addressof(*cx) ? 3 : 4); });
        auto t = cx.transform([&](P const & p) { ++n; return I::same(p, I::make(model[a])) ? 5 : 6; });
        if (n != (model[a] >= 0 ? 2 : 0) || (n && (*r != 3 || *t != 5))) e = "monadic call is wrong";
        break;
      }
      case 23: { O & alias = x; x = std::move(alias); break; }
      case 24: if (model[a] >= 0) { *x = I::make(0); model[a] = 0; } break;
      case 25: x.swap(x); break;
    }
    opaque(buf);
    if (e) {
      return e;
    }
    for (int i = 0; i < 3; ++i) {
      bool const mayChange = mutates(s.op) && (i == a || (touchesB && i == b));
      if (!mayChange && std::memcmp(before + static_cast<std::size_t>(i) * sizeof(O), raw(i), sizeof(O)) != 0) {
        return i == a ? "a const operation changed bytes of the optional" : "an operation changed bytes of a different optional";
      }
      if (o(i).has_value() != (model[i] >= 0)) {
        return "emptiness differs from the model";
      }
      if (model[i] >= 0) {
        void const * p = std::addressof(*o(i));
        if (addr[i] && !fresh && p != addr[i]) {
          return "the address of the value changed";
        }
        auto q = static_cast<unsigned char const *>(p);
        if (q < raw(i) || q + sizeof(P) > raw(i) + sizeof(O)) {
          return "the value lies outside of the optional";
        }
        if (!I::same(*o(i), I::make(model[i]))) {
          return "bytes of the payload were changed";
        }
        addr[i] = p;
      }
      else {
        addr[i] = nullptr;
      }
    }
    for (std::size_t i = 0; i < OFF; ++i) {
      if (buf[i] != guard) return "memory before the optionals was modified";
    }
    for (std::size_t i = OFF + 3 * sizeof(O); i < sizeof buf; ++i) {
      if (buf[i] != guard) return "memory after the optionals was modified";
    }
    return nullptr;
  }
  static std::string str(int fill, std::vector<Step> const & p)
  {
    std::string r = "fill=" + std::to_string(fill);
    for (auto s : p) r += "; " + std::string(opName(s.op)) + " #" + std::to_string(s.pos);
    return r;
  }
  bool path(int fill, std::vector<Step> const & p)
  {
    gCtx = "executing " + str(fill, p);
    init(static_cast<unsigned char>(fill), static_cast<unsigned char>(fill ^ 0x3C));
    for (std::size_t i = 0; i < p.size(); ++i) {
      if (char const * e = step(p[i])) {
        fail("BYTES", str(fill, p), e);
        return false;
      }
    }
    done();
    ++gC.executions;
    opaque(buf);
    for (std::size_t i = 0; i < OFF; ++i) {
      if (buf[i] != guard) { fail("BYTES", str(fill, p), "destruction modified memory before the optionals"); return false; }
    }
    for (std::size_t i = OFF + 3 * sizeof(O); i < sizeof buf; ++i) {
      if (buf[i] != guard) { fail("BYTES", str(fill, p), "destruction modified memory after the optionals"); return false; }
    }
    return true;
  }
};

template <class O, class I>
void explore(std::string const & name)
{
  if (!begin(name)) {
    return;
  }
  static World<O, I> w;
  using W = World<O, I>;
  if (!gReplay.empty()) {
    std::vector<Step> p;
    int fill = std::atoi(gReplay.c_str() + 5);
    std::size_t pos = gReplay.find("; ");
    while (pos != std::string::npos) {
      std::size_t e = gReplay.find("; ", pos + 2);
      std::string t = gReplay.substr(pos + 2, e == std::string::npos ? e : e - pos - 2);
      std::size_t h = t.rfind(" #");
      for (int k = 0; k < W::OPS; ++k)
        if (t.substr(0, h) == W::opName(k)) p.push_back(Step{k, std::atoi(t.c_str() + h + 2)});
      pos = e;
    }
    w.path(fill, p);
    stat();
    return;
  }
  int const fills[] = {0x00, 0xFE, 0xFF, 0xA5};
  int const nf = gTier ? 4 : 2;
  for (int f = 0; f < nf; ++f) {
    // BFS over the model states, every operation at every position.
    std::map<std::string, int> seen;
    std::vector<std::vector<Step>> nodes{{}};
    seen["-1,-1,-1"] = 1;
    for (std::size_t n = 0; n < nodes.size(); ++n) {
      for (int k = 0; k < W::OPS; ++k)
        for (int p = 0; p < 3; ++p) {
          auto pa = nodes[n];
          pa.push_back(Step{k, p});
          if (!w.path(fills[f], pa)) return;
          ++gC.transitions;
          std::string key = std::to_string(w.model[0]) + "," + std::to_string(w.model[1]) + "," + std::to_string(w.model[2]);
          if (seen.emplace(key, 1).second) nodes.push_back(pa);
        }
    }
    gC.states += static_cast<long>(nodes.size());
  }
  // All sequences of depth 2 (thorough: 3), without merging.
  int const total = W::OPS * 3;
  for (int i = 0; i < total; ++i)
    for (int j = 0; j < total; ++j) {
      if (!w.path(0xFE, {Step{i / 3, i % 3}, Step{j / 3, j % 3}})) return;
      if (gTier) {
        for (int k = 0; k < total; ++k)
          if (!w.path(0xFE, {Step{i / 3, i % 3}, Step{j / 3, j % 3}, Step{k / 3, k % 3}})) return;
      }
    }
  stat();
  if (gShard == 0) sample(W::str(0xFE, {Step{1, 0}, Step{8, 0}, Step{16, 2}}));
}

// ---- Data in the tail padding of an optional (members of a derived class, or next to a [[no_unique_address]] member)
template <class O>
struct TailBase : O
{
  unsigned char t[9];
  O & opt() { return *this; }
};
#if __cplusplus >= 202002L
template <class O>
struct TailNua
{
  [[no_unique_address]] O o;
  unsigned char t[9];
  O & opt() { return o; }
};
#endif
template <class H, class O, class I>
bool tailPath(std::vector<Step> const & p, bool report)
{
  static char const * names[] = {"emplace v0", "emplace v1", "assign const lvalue v0", "assign rvalue v1", "reset", "assign nullopt", "copy-assign other", "move-assign other", "swap other", "free swap other", "self copy-assign", "assign {}", "assign own value", "self move-assign"};
  alignas(H) static unsigned char mem[2][sizeof(H)];
  std::string str;
  for (auto s : p) str += std::string(str.empty() ? "" : "; ") + names[s.op] + " #" + std::to_string(s.pos);
  gCtx = "tail padding: " + str;
  H * h[2];
  int model[2] = {-1, -1};
  for (int i = 0; i < 2; ++i) {
    h[i] = ::new (static_cast<void *>(mem[i])) H{};
    for (std::size_t j = 0; j < sizeof h[i]->t; ++j) h[i]->t[j] = static_cast<unsigned char>(0x11 + 0x40 * i + 7 * j);
  }
  opaque(mem);
  typename I::P const v0 = I::make(0);
  char const * e = nullptr;
  for (auto s : p) {
    int const a = s.pos, b = 1 - a;
    O & x = h[a]->opt();
    O & y = h[b]->opt();
    O const & cx = x;
    switch (s.op) {
      case 0: x.emplace(I::make(0)); model[a] = 0; break;
      case 1: x.emplace(I::make(1)); model[a] = 1; break;
      case 2: x = v0; model[a] = 0; break;
      case 3: x = I::make(1); model[a] = 1; break;
      case 4: x.reset(); model[a] = -1; break;
      case 5: x = std::nullopt; model[a] = -1; break;
      case 6: x = static_cast<O const &>(y); model[a] = model[b]; break;
      case 7: x = std::move(y); model[a] = model[b]; break;
      case 8: x.swap(y); std::swap(model[a], model[b]); break;
      case 9: { using std::swap; swap(x, y); std::swap(model[a], model[b]); break; }
      case 10: x = cx; break;
      case 11: x = {}; model[a] = -1; break;
      case 12: if (model[a] >= 0) x = *cx; break;
      case 13: { O & al = x; x = std::move(al); break; }
    }
    opaque(mem);
    for (int i = 0; i < 2 && !e; ++i) {
      O const & o = h[i]->opt();
      if (o.has_value() != (model[i] >= 0) || (model[i] >= 0 && !I::same(*o, I::make(model[i])))) e = "value or emptiness is wrong";
      for (std::size_t j = 0; j < sizeof h[i]->t; ++j)
        if (h[i]->t[j] != static_cast<unsigned char>(0x11 + 0x40 * i + 7 * j)) e = "a neighbouring object that lies in the tail padding of the optional was modified";
    }
    if (e) break;
  }
  for (int i = 0; i < 2; ++i) h[i]->~H();
  ++gC.executions;
  gC.transitions += p.size();
  if (e && report) fail("BYTES", "tail padding: " + str, e);
  return !e;
}
constexpr int TAIL_OPS = 14;
template <class H, class O, class I>
void tailExplore(std::string const & name)
{
  if (!begin(name)) return; // a replay simply repeats the (short) enumeration for this type
  int const n = TAIL_OPS * 2;
  auto st = [](int i) { return Step{i / 2, i % 2}; };
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      for (int k = 0; k < n; ++k) {
        if (!tailPath<H, O, I>({st(i), st(j), st(k)}, true)) return;
        if (gTier)
          for (int l = 0; l < n; ++l)
            if (!tailPath<H, O, I>({st(i), st(j), st(k), st(l)}, true)) return;
      }
  gC.states = 9;
  stat();
}
template <class O, class I>
void tails(std::string const & name)
{
  tailExplore<TailBase<O>, O, I>("derived class of " + name);
#if __cplusplus >= 202002L
  tailExplore<TailNua<O>, O, I>("no_unique_address " + name);
#endif
}
struct PadS // a payload with tail padding of its own
{
  PadS() : d(0), c(0) { }
  PadS(double d_, char c_) : d(d_), c(c_) { }
  double d;
  char c;
};
template <>
struct Img<PadS>
{
  using P = PadS;
  static P make(int i) { return i ? PadS(-0.0, 'x') : PadS(2.5, '\xff'); }
  static bool same(P const & a, P const & b) { return std::memcmp(&a.d, &b.d, 8) == 0 && a.c == b.c; }
};

template <class M, std::size_t K, class... S>
struct Mk;
template <class M, std::size_t K>
void memb(char const * mn)
{
  using P = Blk<M, K, 9>;
  std::string const nm = std::string("flag member ") + mn + " after " + std::to_string(K) + " bytes";
  if constexpr (std::is_integral_v<M> && !std::is_same_v<M, bool>) {
    explore<tiny::optional<P, &P::m, std::is_signed_v<M> ? -1 : 255>, Img<P>>(nm);
  }
  else {
    explore<tiny::optional<P, &P::m>, Img<P>>(nm);
  }
}
template <class M, std::size_t... K>
void membs(char const * mn, std::index_sequence<K...>)
{
  (memb<M, K>(mn), ...);
}
template <std::size_t... N>
void seps(std::index_sequence<N...>)
{
  (explore<tiny::optional<Bytes<N + 1>>, Img<Bytes<N + 1>>>("separate flag after " + std::to_string(N + 1) + " bytes"), ...);
}

int main(int argc, char ** argv)
{
  setup(argc, argv);
  using Fn = int (*)(int);
  using Seq = std::make_index_sequence<VH_OFFSETS>;
#if VH_PART == 0
  membs<bool>("bool", Seq());
#elif VH_PART == 1
  membs<float>("float", Seq());
#elif VH_PART == 2
  membs<double>("double", Seq());
#elif VH_PART == 3
  membs<int *>("int*", Seq());
  membs<Fn>("function pointer", std::make_index_sequence<2>());
#elif VH_PART == 4
  membs<unsigned char>("unsigned char", Seq());
#elif VH_PART == 5
  membs<short>("short", Seq());
#elif VH_PART == 6
  membs<long long>("long long", Seq());
#elif VH_PART == 7
  membs<ManE>("enum with manipulator", Seq());
#elif VH_PART == 8
  seps(std::make_index_sequence<VH_OFFSETS + 4>());
#elif VH_PART == 9
  explore<tiny::optional<bool>, Img<Scalar<bool>>>("bool");
  explore<tiny::optional<float>, Img<Scalar<float>>>("float");
  explore<tiny::optional<double>, Img<Scalar<double>>>("double");
  explore<tiny::optional<int *>, Img<Scalar<int *>>>("int*");
  explore<tiny::optional<Fn>, Img<Scalar<Fn>>>("function pointer");
  explore<tiny::optional<ManE>, Img<Scalar<ManE>>>("enum with manipulator");
  explore<tiny::optional<unsigned char, 255>, Img<Scalar<unsigned char>>>("unsigned char, 255");
  explore<tiny::optional<short, -1>, Img<Scalar<short>>>("short, -1");
  explore<tiny::optional<int, -1>, Img<Scalar<int>>>("int, -1");
  explore<tiny::optional<long long, -1>, Img<Scalar<long long>>>("long long, -1");
  explore<tiny::optional<int>, Img<Scalar<int>>>("int, separate flag");
  explore<tiny::optional<long long>, Img<Scalar<long long>>>("long long, separate flag");
  explore<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, 5>>, Img<Scalar<int>>>("optional_inplace<int>");
#elif VH_PART == 10
  tails<tiny::optional<int>, Img<Scalar<int>>>("optional<int>");
  tails<tiny::optional<long long>, Img<Scalar<long long>>>("optional<long long>");
  tails<tiny::optional<short>, Img<Scalar<short>>>("optional<short>");
  tails<tiny::optional<Bytes<3>>, Img<Bytes<3>>>("optional<3 bytes>");
  tails<tiny::optional<Bytes<16>>, Img<Bytes<16>>>("optional<16 bytes>");
  tails<tiny::optional<double>, Img<Scalar<double>>>("optional<double>");
  tails<tiny::optional<bool>, Img<Scalar<bool>>>("optional<bool>");
  tails<tiny::optional<int *>, Img<Scalar<int *>>>("optional<int*>");
  tails<tiny::optional<int, -1>, Img<Scalar<int>>>("optional<int,-1>");
  tails<tiny::optional<PadS>, Img<PadS>>("optional<class with padding>");
  tails<tiny::optional<PadS, &PadS::d>, Img<PadS>>("optional<class with padding, member double>");
  tails<tiny::optional<PadS, &PadS::c, 'e'>, Img<PadS>>("optional<class with padding, member char>");
  {
    using P = Blk<double, 3, 9>;
    tails<tiny::optional<P, &P::m>, Img<P>>("optional<aggregate, member double>");
    using Q = Blk<short, 1, 9>;
    tails<tiny::optional<Q>, Img<Q>>("optional<aggregate>");
  }
  tails<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, 5>>, Img<Scalar<int>>>("optional_inplace<int>");
#endif
  return finish();
}
