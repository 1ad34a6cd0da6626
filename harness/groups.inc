// FL(name, subject type, payload type)
#define P_(LAY, NX) Pay<LAY, NX>
{
  constexpr unsigned T0 = 0, TN = NX_ALL;
  constexpr unsigned TMoveN = NX_MC | NX_MA | NX_SWAP; // usual class: moves do not throw, copies do
  constexpr unsigned TSwapN = NX_SWAP | NX_CA | NX_MA | NX_VA; // assignments do not throw, constructions do
  constexpr unsigned TCtorN = NX_VAL | NX_CC | NX_MC | NX_DEF; // constructions do not throw, assignments do
  (void)T0, (void)TN, (void)TMoveN, (void)TSwapN, (void)TCtorN;
#if VH_GROUP == 0
  using P0 = Pay<LPlain, T0>;
  FL("separate flag, all throwing", tiny::optional<P0>, P0);
#elif VH_GROUP == 1
  using P0 = Pay<LPlain3, TN>;
  FL("separate flag, nothing throws", tiny::optional<P0>, P0);
#elif VH_GROUP == 2
  using P0 = Pay<LInt, T0>;
  FL("member int sentinel, all throwing", tiny::optional<P0 COMMA &P0::m COMMA -1>, P0);
#elif VH_GROUP == 3
  using P0 = Pay<LDouble, T0>;
  FL("member double, all throwing", tiny::optional<P0 COMMA &P0::m>, P0);
#elif VH_GROUP == 4
  using P0 = Pay<LBool, TMoveN>;
  FL("member bool, moves nothrow", tiny::optional<P0 COMMA &P0::m>, P0);
#elif VH_GROUP == 5
  using P0 = Pay<LPtr, TSwapN>;
  FL("member pointer, assignments nothrow", tiny::optional<P0 COMMA &P0::m>, P0);
#elif VH_GROUP == 6
  using P0 = Pay<LWhole, T0>;
  FL("custom manipulator for payload, all throwing", tiny::optional<P0>, P0);
#elif VH_GROUP == 7
  using P0 = Pay<LInplace, T0>;
  using M0 = TrackedManip<P0 COMMA 4 COMMA 4711>;
  using O0 = tiny::optional_inplace<P0 COMMA M0>;
  FL("optional_inplace, all throwing", O0, P0);
#elif VH_GROUP == 8
  using P0 = Pay<LManipEnum, T0>;
  FL("member with custom manipulator, all throwing", tiny::optional<P0 COMMA &P0::m>, P0);
#elif VH_GROUP == 9
  using P0 = Pay<LManipMember, TCtorN>;
  FL("member class with custom manipulator, ctors nothrow", tiny::optional<P0 COMMA &P0::m>, P0);
#elif VH_GROUP == 10
  using P0 = Pay<LUChar, T0>;
  using S0 = SentType<unsigned COMMA 255u>;
  using O0 = tiny::optional_sentinel_via_type<P0 COMMA S0 COMMA &P0::m>;
  FL("sentinel via type in member, all throwing", O0, P0);
#elif VH_GROUP == 11
  FL("move-only, all throwing", tiny::optional<MoveOnly>, MoveOnly);
  FL("move-only, nothing throws", tiny::optional<MoveOnlyN>, MoveOnlyN);
  FL("immovable, all throwing", tiny::optional<Immovable>, Immovable);
  FL("immovable, nothing throws", tiny::optional<ImmovableN>, ImmovableN);
#elif VH_GROUP == 12
  FL("copy-only, all throwing", tiny::optional<CopyOnly>, CopyOnly);
  FL("not assignable, all throwing", tiny::optional<NoAssign>, NoAssign);
#elif VH_GROUP == 13
  using P0 = Pay<LPlain, T0> const;
  FL("const payload, separate flag, all throwing", tiny::optional<P0>, P0);
  using P1 = Pay<LBig<100>, T0>;
  FL("100 byte payload, all throwing", tiny::optional<P1>, P1);
#elif VH_GROUP == 14
  using P0 = Pay<LAligned<64>, T0>;
  FL("over-aligned payload, all throwing", tiny::optional<P0>, P0);
  FL("overloaded & and , and new, all throwing", tiny::optional<Evil>, Evil);
#elif VH_GROUP == 15
  FL("bool", tiny::optional<bool>, bool);
  FL("float", tiny::optional<float>, float);
  FL("double", tiny::optional<double>, double);
#elif VH_GROUP == 16
  FL("int*", tiny::optional<int *>, int *);
  FL("function pointer", tiny::optional<int (*)(int)>, int (*)(int));
  FL("const double", tiny::optional<double const>, double const);
#elif VH_GROUP == 17
  FL("int sentinel", tiny::optional<int COMMA -1>, int);
  FL("unsigned char sentinel", tiny::optional<unsigned char COMMA 255>, unsigned char);
  FL("aip long long", tiny::optional_aip<long long>, long long);
#elif VH_GROUP == 18
  FL("enum sentinel", tiny::optional<PlainEnum COMMA PlainEnum::invalid>, PlainEnum);
  FL("enum with manipulator", tiny::optional<ManipEnum>, ManipEnum);
  using S0 = SentType<int COMMA -1>;
  using O0 = tiny::optional_sentinel_via_type<int COMMA S0>;
  FL("int sentinel via type", O0, int);
#elif VH_GROUP == 19
  FL("int", tiny::optional<int>, int);
  FL("long double", tiny::optional<long double>, long double);
  FL("member object pointer", tiny::optional<int SomeClass::*>, int SomeClass::*);
#elif VH_GROUP == 20
  FL("std::string", tiny::optional<std::string>, std::string);
  FL("std::vector<int>", tiny::optional<std::vector<int>>, std::vector<int>);
  FL("std::unique_ptr<int>", tiny::optional<std::unique_ptr<int>>, std::unique_ptr<int>);
#elif VH_GROUP == 21
  using N0 = tiny::optional<bool>;
  FL("nested optional<bool>", tiny::optional<N0>, N0);
  using N1 = tiny::optional<int COMMA -1>;
  FL("nested optional<int,-1>", tiny::optional<N1>, N1);
#elif VH_GROUP == 22
  using P0 = Pay<LFloat, TCtorN>;
  FL("member float, ctors nothrow", tiny::optional<P0 COMMA &P0::m>, P0);
#elif VH_GROUP == 23
  using P0 = Pay<LLL, TMoveN>;
  FL("member long long sentinel, moves nothrow", tiny::optional<P0 COMMA &P0::m COMMA -1>, P0);
#elif VH_GROUP == 24
  using P0 = Pay<LEnum, TN>;
  FL("member enum sentinel, nothing throws", tiny::optional<P0 COMMA &P0::m COMMA PlainEnum::invalid>, P0);
#elif VH_GROUP == 25
  FL("const int sentinel", tiny::optional<int const COMMA -1>, int const);
  FL("const bool", tiny::optional<bool const>, bool const);
  FL("const pointer", tiny::optional<int * const>, int * const);
#elif VH_GROUP == 26
  using P0 = Pay<LWhole, TN>;
  FL("custom manipulator for payload, nothing throws", tiny::optional<P0>, P0);
#elif VH_GROUP == 27
  using P0 = Pay<LInplace, TMoveN>;
  using M0 = TrackedManip<P0 COMMA 4 COMMA 4711>;
  using O0 = tiny::optional_inplace<P0 COMMA M0>;
  FL("optional_inplace, moves nothrow", O0, P0);
#elif VH_GROUP == 28
  using P0 = Pay<LBig<4096>, TMoveN>;
  FL("4 KiB payload, moves nothrow", tiny::optional<P0>, P0);
#elif VH_GROUP == 29
  using P0 = Pay<LFn, T0>;
  FL("member function pointer, all throwing", tiny::optional<P0 COMMA &P0::m>, P0);
#elif VH_GROUP == 33
  FL("trivial class", tiny::optional<TrivA>, TrivA);
  FL("trivial class, member int", tiny::optional<TrivI COMMA &TrivI::i COMMA -1>, TrivI);
  FL("trivial class, member unsigned char", tiny::optional<TrivI COMMA &TrivI::u COMMA 255>, TrivI);
  FL("trivial class, manipulator", tiny::optional<TrivManip>, TrivManip);
#elif VH_GROUP == 34
  FL("trivial class, member double", tiny::optional<TrivD COMMA &TrivD::d>, TrivD);
  FL("trivial class, member pointer", tiny::optional<TrivD COMMA &TrivD::p>, TrivD);
  FL("trivial class, member bool", tiny::optional<TrivD COMMA &TrivD::f>, TrivD);
#elif VH_GROUP == 35
  FL("empty class", tiny::optional<Empty>, Empty);
  FL("trivial class with const members", tiny::optional<TrivNoAssign>, TrivNoAssign);
  FL("trivially destructible class", tiny::optional<TrivDtor>, TrivDtor);
  FL("trivially destructible class, member int", tiny::optional<TrivDtor COMMA &TrivDtor::a COMMA -1>, TrivDtor);
  FL("polymorphic final class", tiny::optional<PolyD>, PolyD);
  FL("std::optional as payload", tiny::optional<std::optional<int>>, std::optional<int>);
#elif VH_GROUP == 36
  using P0 = Expl<LInt>;
  FL("explicit conversions, member int, all throwing", tiny::optional<P0 COMMA &P0::mm COMMA -1>, P0);
  FL("explicit conversions, separate flag, all throwing", tiny::optional<P0>, P0);
  FL("constructible from everything", tiny::optional<Greedy>, Greedy);
  FL("constructible from everything, member int", tiny::optional<Greedy COMMA &Greedy::a COMMA -1>, Greedy);
#elif VH_GROUP == 37
  FL("volatile int", tiny::optional<int volatile>, int volatile);
  FL("volatile int sentinel", tiny::optional<int volatile COMMA -1>, int volatile);
  FL("volatile double", tiny::optional<double volatile>, double volatile);
  FL("const volatile bool", tiny::optional<bool const volatile>, bool const volatile);
  FL("volatile pointer", tiny::optional<int * volatile>, int * volatile);
  FL("volatile enum sentinel", tiny::optional<PlainEnum volatile COMMA PlainEnum::invalid>, PlainEnum volatile);
#elif VH_GROUP == 38
  using O0 = tiny::optional_sentinel_via_type<double COMMA SentDouble>;
  FL("double sentinel via type", O0, double);
  FL("char sentinel", tiny::optional<char COMMA 'x'>, char);
  FL("aip unsigned short", tiny::optional_aip<unsigned short>, unsigned short);
  #if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) && !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  FL("aip bool", tiny::optional_aip<bool>, bool);
  #endif
  using P0 = std::pair<int COMMA double>;
  FL("member double of std::pair", tiny::optional<P0 COMMA &P0::second>, P0);
  FL("member int of std::pair", tiny::optional<P0 COMMA &P0::first COMMA 7>, P0);
  FL("closure", tiny::optional<Closure>, Closure);
  using N1 = tiny::optional<tiny::optional<bool>>;
  FL("nested twice", tiny::optional<N1>, N1);
#endif
#if __cplusplus >= 202002L
  #if VH_GROUP == 30
  using P0 = Pay<LNttp, T0>;
  FL("member class sentinel (C++20), all throwing", tiny::optional<P0 COMMA &P0::m COMMA NttpFlag{0 COMMA 0}>, P0);
  #elif VH_GROUP == 31
  using P0 = PayR<LDouble, T0, false, true>;
  FL("move-only with member double, all throwing", tiny::optional<P0 COMMA &P0::mm>, P0);
  using P1 = PayR<LInt, T0, false, false>;
  FL("immovable with member sentinel, all throwing", tiny::optional<P1 COMMA &P1::mm COMMA -1>, P1);
  #elif VH_GROUP == 32
  using P0 = PayR<LManipEnum, T0, false, true>;
  FL("move-only with custom manipulator member, all throwing", tiny::optional<P0 COMMA &P0::mm>, P0);
  using P1 = PayR<LPtr, T0, true, false>;
  FL("copy-only with member pointer, all throwing", tiny::optional<P1 COMMA &P1::mm>, P1);
  #endif
#endif
}
