// C05: optionals with a sentinel can store every other value. VH_PART selects the instances.
#include "bits.hpp"

template <class T, T v>
struct ViaType
{
  static constexpr T value = v;
};
template <int S>
struct Wrapped // uses tiny::sentinel_flag_manipulator
{
  std::int16_t x;
  Wrapped() = default;
  Wrapped(int v) noexcept : x(static_cast<std::int16_t>(v)) { }
  friend bool operator==(Wrapped const & a, int b) noexcept { return a.x == b; }
};
template <int S>
struct tiny::optional_flag_manipulator<Wrapped<S>> : tiny::sentinel_flag_manipulator<Wrapped<S>, S>
{
};
enum class EnI : int { a, inv = -77 };
enum class EnU8 : unsigned char { a, inv = 200 };
enum EnPlain : short { plA, plInv = 300 };
template <>
struct tiny::optional_flag_manipulator<EnI> : tiny::sentinel_flag_manipulator<EnI, EnI::inv>
{
};
template <>
struct tiny::optional_flag_manipulator<EnU8> : tiny::sentinel_flag_manipulator<EnU8, EnU8::inv>
{
};

template <class T>
using BitsOf = std::conditional_t<sizeof(T) == 1, std::uint8_t, std::conditional_t<sizeof(T) == 2, std::uint16_t, std::conditional_t<sizeof(T) == 4, std::uint32_t, std::uint64_t>>>;
template <class T>
BitsOf<T> toBits(T t)
{
  BitsOf<T> b;
  std::memcpy(&b, &t, sizeof b);
  return b;
}
template <class T>
constexpr char const * nameOf()
{
  std::string_view s = __PRETTY_FUNCTION__;
  (void)s;
  return __PRETTY_FUNCTION__;
}

// One sentinel optional O of payload codec C whose sentinel has the bits s.
template <class O, class C>
void sent(std::string const & name, typename C::Bits s, int W = 12, int hamming = 2, bool (*skip)(typename C::Bits) = nullptr)
{
  using B = typename C::Bits;
  B const other = static_cast<B>(s == 1 ? 2 : 1);
  bool const small = sizeof(B) <= 2;
  int const w = small ? 8 : W > int(sizeof(B) * 8) ? int(sizeof(B) * 8) : W;
  std::vector<B> anchors{s};
  if (s != 0) anchors.push_back(0);
  if (s != static_cast<B>(~B(0))) anchors.push_back(static_cast<B>(~B(0)));
  B const mid = static_cast<B>(B(1) << (sizeof(B) * 8 - 1));
  if (s != mid) anchors.push_back(mid);
  run<O, C>(name.c_str(), {s}, anchors, other, small || (gTier && sizeof(B) == 4 && hamming == 4) ? ALL : WIN, w, skip, hamming);
}

template <class T, class L, L v>
void lit(char const * tn, char const * ln)
{
  using C = Raw<T, BitsOf<T>>;
  std::string const nm = std::string(tn) + " with sentinel " + ln + " " + std::to_string(static_cast<long long>(v));
  sent<tiny::optional<T, v>, C>(nm, toBits(static_cast<T>(v)), 9);
}

template <class T>
struct Lim
{
  static constexpr auto lo = std::numeric_limits<T>::lowest();
  static constexpr auto hi = std::numeric_limits<T>::max();
};
// Is the mathematical value of x representable in T?
template <class T, class X>
constexpr bool fits(X x)
{
  T const t = static_cast<T>(x);
  return static_cast<X>(t) == x && (t < T(0)) == (x < X(0));
}
template <class T, class L, class S, S v>
void tryLit(char const * tn, char const * ln)
{
  if constexpr (fits<L>(v) && fits<T>(v)) {
    lit<T, L, static_cast<L>(v)>(tn, ln);
  }
}
template <class T, class L>
void matrixTL(char const * tn, char const * ln)
{
  tryLit<T, L, T, Lim<T>::lo>(tn, ln);
  tryLit<T, L, T, Lim<T>::hi>(tn, ln);
  if constexpr (!std::is_same_v<T, L>) {
    tryLit<T, L, L, Lim<L>::lo>(tn, ln);
    tryLit<T, L, L, Lim<L>::hi>(tn, ln);
  }
  if constexpr (std::is_signed_v<T>) {
    tryLit<T, L, int, -1>(tn, ln);
  }
  tryLit<T, L, int, 42>(tn, ln);
}
template <class T>
void matrix(char const * tn)
{
  matrixTL<T, signed char>(tn, "signed char");
  matrixTL<T, unsigned char>(tn, "unsigned char");
  matrixTL<T, char>(tn, "char");
  matrixTL<T, short>(tn, "short");
  matrixTL<T, unsigned short>(tn, "unsigned short");
  matrixTL<T, int>(tn, "int");
  matrixTL<T, unsigned>(tn, "unsigned");
  matrixTL<T, long>(tn, "long");
  matrixTL<T, unsigned long>(tn, "unsigned long");
  matrixTL<T, long long>(tn, "long long");
  matrixTL<T, unsigned long long>(tn, "unsigned long long");
  matrixTL<T, wchar_t>(tn, "wchar_t");
  matrixTL<T, char16_t>(tn, "char16_t");
  matrixTL<T, char32_t>(tn, "char32_t");
}
template <class T, std::size_t... I>
void all8(char const * tn, int base, std::index_sequence<I...>)
{
  (lit<T, int, static_cast<T>(static_cast<unsigned char>(I + VH_BASE)) + 0>(tn, "int"), ...);
}
template <class T>
void aip(char const * tn, T expected, int W)
{
  sent<tiny::optional_aip<T>, Raw<T, BitsOf<T>>>(std::string("optional_aip<") + tn + ">", toBits(expected), W, 4);
}

#if VH_PART == 2
using HS = Holder<short, std::uint16_t>;
using HI = Holder<int, std::uint32_t>;
using HUC = Holder<unsigned char, std::uint8_t>;
using HLL = Holder<long long, std::uint64_t>;
using HPt = Holder<int *, std::uintptr_t>;
using HDb = Holder<double, std::uint64_t>;
using HEn = Holder<EnI, std::uint32_t>;
using HB = Holder<bool, std::uint8_t>;
#endif
struct SentOneF { static constexpr float value = 1.0f; };
struct SentD { static constexpr double value = -2.5; };

int main(int argc, char ** argv)
{
  setup(argc, argv);
#if VH_PART == 0 // all 8 bit sentinels and all 8 bit values
  all8<unsigned char>("unsigned char", 0, std::make_index_sequence<64>());
  all8<signed char>("signed char", 0, std::make_index_sequence<64>());
  all8<char>("char", 0, std::make_index_sequence<64>());
#elif VH_PART == 1 // literal types x payload types
  matrix<VH_TYPE>(VH_TYPENAME);
#elif VH_PART == 2
  using U32 = std::uint32_t;
  using U64 = std::uint64_t;
  using UP = std::uintptr_t;
  sent<tiny::optional<HS, &HS::m, -1>, Member<short, std::uint16_t>>("short member, -1", 0xffff);
  sent<tiny::optional<HI, &HI::m, 0>, Member<int, U32>>("int member, 0", 0, 20, 3);
  sent<tiny::optional<HI, &HI::m, -5>, Member<int, U32>>("int member, -5", toBits(-5), 20, 3);
  sent<tiny::optional<HUC, &HUC::m, 255>, Member<unsigned char, std::uint8_t>>("unsigned char member, 255", 255);
  sent<tiny::optional<HLL, &HLL::m, -1>, Member<long long, U64>>("long long member, -1", ~U64(0), 16);
  sent<tiny::optional<HLL, &HLL::m, 0xffffffffu>, Member<long long, U64>>("long long member, 0xffffffffu", 0xffffffffu, 16);
  sent<tiny::optional<HPt, &HPt::m, nullptr>, Member<int *, UP>>("pointer member, nullptr", 0, 16);
  sent<tiny::optional<HEn, &HEn::m>, Member<EnI, U32>>("enum member with sentinel_flag_manipulator", toBits(EnI::inv), 16);
  sent<tiny::optional<HEn, &HEn::m, EnI::a>, Member<EnI, U32>>("enum member, explicit sentinel", 0, 16);
  {
    std::vector<std::uint8_t> ill;
    for (int i = 1; i < 256; ++i) ill.push_back(static_cast<std::uint8_t>(i));
    run<tiny::optional<bool, true>, Raw<bool, std::uint8_t>>("bool, sentinel true", ill, {0}, 0, ALL, 8);
    run<tiny::optional<HB, &HB::m, true>, Member<bool, std::uint8_t>>("bool member, sentinel true", ill, {0}, 0, ALL, 8);
    ill[0] = 0;
    run<tiny::optional<bool, false>, Raw<bool, std::uint8_t>>("bool, sentinel false", ill, {1}, 1, ALL, 8);
  }
  using S1 = ViaType<int, 7>;
  using S2 = ViaType<unsigned long long, 0xffffffffffffffffull>;
  using S3 = ViaType<int, 0>;
  sent<tiny::optional_sentinel_via_type<unsigned, S1>, Raw<unsigned, U32>>("via type: unsigned, int 7", 7, 20, 3);
  sent<tiny::optional_sentinel_via_type<unsigned long long, S2>, Raw<unsigned long long, U64>>("via type: ull max", ~U64(0), 16);
  sent<tiny::optional_sentinel_via_type<HS, S3, &HS::m>, Member<short, std::uint16_t>>("via type: short member, 0", 0);
  sent<tiny::optional_sentinel_via_type<HLL, S1, &HLL::m>, Member<long long, U64>>("via type: long long member, 7", 7, 16);
  sent<tiny::optional<int *, nullptr>, Raw<int *, UP>>("int*, nullptr", 0, 19, 3);
  using Fn = int (*)(int);
  sent<tiny::optional<Fn, nullptr>, Raw<Fn, UP>>("function pointer, nullptr", 0, 16);
  {
    auto sigF = [](U32 b) { return sizeof(void *) == 4 && (b & 0x7f800000u) == 0x7f800000u && (b & 0x007fffffu) && !(b & 0x00400000u); };
    auto sigD = [](U64 b) { return sizeof(void *) == 4 && (b & 0x7ff0000000000000u) == 0x7ff0000000000000u && (b & 0x000fffffffffffffu) && !(b & 0x0008000000000000u); };
    sent<tiny::optional_sentinel_via_type<float, SentOneF>, Raw<float, U32>>("via type: float 1.0", 0x3f800000u, 20, 3, sigF);
    sent<tiny::optional_sentinel_via_type<double, SentD>, Raw<double, U64>>("via type: double -2.5", 0xC004000000000000u, 19, 3, sigD);
    sent<tiny::optional_sentinel_via_type<HDb, SentD, &HDb::m>, Member<double, U64>>("via type: double member -2.5", 0xC004000000000000u, 16, 3, sigD);
  #if __cplusplus >= 202002L && !defined(__clang__)
    sent<tiny::optional<float, 1.0f>, Raw<float, U32>>("float 1.0f", 0x3f800000u, 20, 3, sigF);
    sent<tiny::optional<double, -2.5>, Raw<double, U64>>("double -2.5", 0xC004000000000000u, 16, 3, sigD);
  #endif
  }
  sent<tiny::optional<Wrapped<5>>, Raw<Wrapped<5>, std::uint16_t>>("class with sentinel_flag_manipulator 5", 5);
  sent<tiny::optional<Wrapped<-32768>>, Raw<Wrapped<-32768>, std::uint16_t>>("class with sentinel_flag_manipulator -32768", 0x8000);
  sent<tiny::optional<Wrapped<0>>, Raw<Wrapped<0>, std::uint16_t>>("class with sentinel_flag_manipulator 0", 0);
  sent<tiny::optional_aip<Wrapped<0>>, Raw<Wrapped<0>, std::uint16_t>>("optional_aip of class with sentinel_flag_manipulator 0", 0);
  sent<tiny::optional<EnI>, Raw<EnI, U32>>("enum with sentinel_flag_manipulator", toBits(EnI::inv), 20, 3);
  sent<tiny::optional<EnU8>, Raw<EnU8, std::uint8_t>>("8 bit enum with sentinel_flag_manipulator", 200);
  sent<tiny::optional_aip<EnU8>, Raw<EnU8, std::uint8_t>>("optional_aip of enum with sentinel_flag_manipulator", 200);
  sent<tiny::optional<EnPlain, plInv>, Raw<EnPlain, std::uint16_t>>("plain enum", 300);
  sent<tiny::optional<EnI, EnI::a>, Raw<EnI, U32>>("enum with manipulator, explicit sentinel", 0, 16);
  sent<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, 13>>, Raw<int, U32>>("optional_inplace with sentinel_flag_manipulator", 13, 18);
  sent<tiny::optional<int const, -1>, Raw<int const, U32>>("const int, -1", ~U32(0), 20, 3);
  sent<tiny::optional<unsigned long long const, 0>, Raw<unsigned long long const, U64>>("const ull, 0", 0, 16, 3);
  sent<tiny::optional_aip<int const>, Raw<int const, U32>>("optional_aip<const int>", 0x80000000u, 16, 3);
  sent<tiny::optional_aip<short, 5>, Raw<short, std::uint16_t>>("optional_aip<short, 5>", 5);
  sent<tiny::optional_aip<char, 0>, Raw<char, std::uint8_t>>("optional_aip<char, 0>", 0);
  sent<tiny::optional_aip<unsigned char, 0xff>, Raw<unsigned char, std::uint8_t>>("optional_aip<unsigned char, 0xff>", 0xff);
#elif VH_PART == 3 // defaults of optional_aip
  aip<unsigned short>("unsigned short", USHRT_MAX, 16);
  aip<short>("short", SHRT_MIN, 16);
  aip<unsigned>("unsigned", UINT_MAX, 24);
  aip<int>("int", INT_MIN, 24);
  aip<unsigned long>("unsigned long", ULONG_MAX, 22);
  aip<long>("long", LONG_MIN, 22);
  aip<unsigned long long>("unsigned long long", ULLONG_MAX, 22);
  aip<long long>("long long", LLONG_MIN, 22);
#endif
  return finish();
}
