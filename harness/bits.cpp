// C04: types with unused bits.
#include "bits.hpp"

// Signalling NaNs are turned into quiet ones by the x87 FPU when passed around by value; not a matter of the library.
static bool sigF(std::uint32_t b) { return sizeof(void *) == 4 && (b & 0x7f800000u) == 0x7f800000u && (b & 0x007fffffu) && !(b & 0x00400000u); }
static bool sigD(std::uint64_t b) { return sizeof(void *) == 4 && (b & 0x7ff0000000000000u) == 0x7ff0000000000000u && (b & 0x000fffffffffffffu) && !(b & 0x0008000000000000u); }

int main(int argc, char ** argv)
{
  setup(argc, argv);
  using U8 = std::uint8_t;
  using U32 = std::uint32_t;
  using U64 = std::uint64_t;
  using UP = std::uintptr_t;
  constexpr U32 RF = 0x7fedcba9u;
  constexpr U64 RD = 0x7ff8fedcba987654u;
  constexpr UP RP = sizeof(void *) == 8 ? static_cast<UP>(0xffff800000000000ull - 1) : static_cast<UP>(0xffffffffu - 8);
  std::vector<U32> const aF{RF, 0, 0x7fc00000u, 0xff800000u, 0x3f800000u};
  std::vector<U64> aD{RD, 0, 0x7ff8000000000000u, ~U64(0)};
  std::vector<UP> aP{RP, 0, ~UP(0)};
  int const W = gTier ? 26 : 22;
  if (gTier) {
    aD.insert(aD.end(), {0xfff0000000000000u, 0x3ff0000000000000u, 0xfff8000000000000u});
    aP.push_back(static_cast<UP>(0x00007fffffffffffull));
  }
  int const WP = sizeof(void *) == 8 ? W : 21;
#ifdef VH_PART_FLOAT
  run<tiny::optional<float>, Raw<float, U32>>("float", {RF}, aF, 0x3f800000u, gTier || VH_PART_FLOAT == 1 ? ALL : WIN, 21, sigF);
  #if VH_PART_FLOAT == 2
  using HF = Holder<float, U32>;
  run<tiny::optional<HF, &HF::m>, Member<float, U32>>("float member", {RF}, aF, 0x3f800000u, gTier ? ALL : WIN, 21, sigF);
  run<tiny::optional<float const>, Raw<float const, U32>>("const float", {RF}, aF, 0x3f800000u, WIN, 21, sigF);
  run<tiny::optional_aip<float>, Raw<float, U32>>("optional_aip<float>", {RF}, aF, 0x3f800000u, WIN, 21, sigF);
  #endif
#endif
#ifdef VH_PART_DOUBLE
  using HD = Holder<double, U64>;
  run<tiny::optional<double>, Raw<double, U64>>("double", {RD}, aD, 0x3ff0000000000000u, WIN, W, sigD);
  run<tiny::optional<HD, &HD::m>, Member<double, U64>>("double member", {RD}, aD, 0x3ff0000000000000u, WIN, gTier ? 26 : 20, sigD);
  run<tiny::optional<double const>, Raw<double const, U64>>("const double", {RD}, aD, 0x3ff0000000000000u, WIN, 20, sigD);
  run<tiny::optional_aip<double>, Raw<double, U64>>("optional_aip<double>", {RD}, aD, 0x3ff0000000000000u, WIN, 18, sigD);
#endif
#ifdef VH_PART_PTR
  using HP = Holder<int *, UP>;
  using Fn = int (*)(double);
  using HFn = Holder<Fn, UP>;
  bool const all = sizeof(void *) == 4 && gTier;
  run<tiny::optional<int *>, Raw<int *, UP>>("int*", {RP}, aP, 0x1000, all ? ALL : WIN, WP);
  run<tiny::optional<void *>, Raw<void *, UP>>("void*", {RP}, aP, 0x1000, WIN, 19);
  run<tiny::optional<char const *>, Raw<char const *, UP>>("char const*", {RP}, aP, 0x1000, WIN, 19);
  run<tiny::optional<char const * const>, Raw<char const * const, UP>>("char const* const", {RP}, aP, 0x1000, WIN, 18);
  run<tiny::optional<int **>, Raw<int **, UP>>("int**", {RP}, aP, 0x1000, WIN, 18);
  run<tiny::optional<Fn>, Raw<Fn, UP>>("function pointer", {RP}, aP, 0x1000, WIN, gTier ? WP - 2 : 19);
  run<tiny::optional<HP, &HP::m>, Member<int *, UP>>("pointer member", {RP}, aP, 0x1000, WIN, 19);
  run<tiny::optional<HFn, &HFn::m>, Member<Fn, UP>>("function pointer member", {RP}, aP, 0x1000, WIN, 19);
  run<tiny::optional_aip<long *>, Raw<long *, UP>>("optional_aip<long*>", {RP}, aP, 0x1000, WIN, 18);
#endif
#ifdef VH_PART_BOOL
  std::vector<U8> ill;
  for (int i = 2; i < 256; ++i) ill.push_back(static_cast<U8>(i));
  using HB = Holder<bool, U8>;
  run<tiny::optional<bool>, Raw<bool, U8>>("bool", ill, {0}, 1, ALL, 8);
  run<tiny::optional<bool>, Raw<bool, U8>>("bool (other: false)", ill, {0}, 0, ALL, 8);
  run<tiny::optional<bool const>, Raw<bool const, U8>>("const bool", ill, {0}, 1, ALL, 8);
  run<tiny::optional<HB, &HB::m>, Member<bool, U8>>("bool member", ill, {0}, 1, ALL, 8);
  run<tiny::optional_aip<bool>, Raw<bool, U8>>("optional_aip<bool>", ill, {0}, 1, ALL, 8);
  // Emptiness is never mistaken: in every kind of uninitialised memory.
  if (begin("bool in all kinds of memory")) {
    for (int f = 0; f < 256; ++f) {
      alignas(8) unsigned char mem[8];
      std::memset(mem, f, sizeof mem);
      opaque(mem);
      auto * o = ::new (static_cast<void *>(mem)) tiny::optional<bool>();
      opaque(mem);
      if (o->has_value()) bad(f, "default ctor", "not empty");
      std::memset(mem, f, sizeof mem);
      opaque(mem);
      o = ::new (static_cast<void *>(mem)) tiny::optional<bool>(f % 2 == 0);
      opaque(mem);
      if (!o->has_value() || **o != (f % 2 == 0)) bad(f, "value ctor", "wrong");
      ++gC.states;
      gC.transitions += 2;
    }
    stat();
  }
#endif
  return finish();
}
