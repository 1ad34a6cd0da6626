"""C16: the matrix of instantiations that have to be accepted or rejected by the compiler.

Every case is (name, code at namespace scope, code in a function, accept?, minimal C++ standard)."""

INTS = {  # bits for LP64
    'signed char': (8, True), 'unsigned char': (8, False), 'char': (8, True), 'short': (16, True), 'unsigned short': (16, False),
    'int': (32, True), 'unsigned': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'long long': (64, True),
    'unsigned long long': (64, False), 'wchar_t': (32, True), 'char16_t': (16, False), 'char32_t': (32, False)}


def limits(t):
    bits, sgn = INTS[t]
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sgn else (0, (1 << bits) - 1)


def lit(l, v):
    if v == -(1 << 63):
        e = '(-9223372036854775807LL - 1)'
    elif v < 0:
        e = '(-%dLL)' % -v
    elif v >= 1 << 63:
        e = '%dULL' % v
    else:
        e = '%dLL' % v
    return 'static_cast<%s>(%s)' % (l, e)


def sentinel_cases():
    """All payload types x all literal types x boundary values."""
    for t in INTS:
        lo, hi = limits(t)
        for l in INTS:
            llo, lhi = limits(l)
            vals = {lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1, llo, llo + 1, lhi - 1, lhi, lo * 2 - 1, hi * 2 + 1, hi * 2 + 2, -2, 127, 128, 255, 256, -128, -129}
            for v in sorted(vals):
                if llo <= v <= lhi:
                    yield t, l, v, lo <= v <= hi


FORMS = ['direct', 'via', 'member', 'viamember', 'aip', 'const', 'constmember']


def form(form, i, t, s, l):
    """Namespace-scope and function code for payload type t with sentinel expression s of type l."""
    if form == 'direct':
        return '', 'tiny::optional<%s, %s> o; (void)o.has_value();' % (t, s)
    if form == 'const':
        return '', 'tiny::optional<%s const, %s> o; (void)o.has_value();' % (t, s)
    if form == 'via':
        return 'struct V%d { static constexpr %s value = %s; };' % (i, l, s), 'tiny::optional_sentinel_via_type<%s, V%d> o; (void)o.has_value();' % (t, i)
    if form == 'member':
        return 'struct S%d { int a; %s m; };' % (i, t), 'tiny::optional<S%d, &S%d::m, %s> o; (void)o.has_value();' % (i, i, s)
    if form == 'constmember':
        return 'struct S%d { int a; %s const m; };' % (i, t), 'tiny::optional<S%d, &S%d::m, %s> o; (void)o.has_value();' % (i, i, s)
    if form == 'viamember':
        return 'struct V%d { static constexpr %s value = %s; }; struct S%d { int a; %s m; };' % (i, l, s, i, t), 'tiny::optional_sentinel_via_type<S%d, V%d, &S%d::m> o; (void)o.has_value();' % (i, i, i)
    if form == 'aip':
        return '', 'tiny::optional_aip<%s, %s> o; (void)o.has_value();' % (t, s)
    raise KeyError(form)


def misc_cases(std):
    C = []

    def acc(name, fn, ns='', minstd=17):
        if std >= minstd:
            C.append((name, ns, fn, True))

    def rej(name, fn, ns='', minstd=17):
        if std >= minstd:
            C.append((name, ns, fn, False))

    use = ' (void)o.has_value();'

    # ---- bool / floating point / enum / pointer sentinels
    for t in ('int', 'char', 'unsigned', 'long long', 'float', 'double', 'int *'):
        for lit_ in ('true', 'false'):
            rej('optional<%s, %s>' % (t, lit_), 'tiny::optional<%s, %s> o;' % (t, lit_) + use)
            rej('via type %s, %s' % (t, lit_), 'tiny::optional_sentinel_via_type<%s, std::integral_constant<bool, %s>> o;' % (t, lit_) + use)
            if t != 'int *':
                rej('member %s, %s' % (t, lit_), 'tiny::optional<S, &S::m, %s> o;' % lit_ + use, 'struct S { int a; %s m; };' % t)
    for lit_ in ('0', '1', '(char)73', '0u', '1ll', "'a'"):
        rej('optional<bool, %s>' % lit_, 'tiny::optional<bool, %s> o;' % lit_ + use)
        rej('optional<bool const, %s>' % lit_, 'tiny::optional<bool const, %s> o;' % lit_ + use)
        rej('member bool, %s' % lit_, 'tiny::optional<S, &S::m, %s> o;' % lit_ + use, 'struct S { int a; bool m; };')
    for lit_ in ('true', 'false'):
        acc('optional<bool, %s>' % lit_, 'tiny::optional<bool, %s> o; o = !%s; static_assert(sizeof(o) == 1);' % (lit_, lit_))
        acc('member bool, %s' % lit_, 'tiny::optional<S, &S::m, %s> o;' % lit_ + use, 'struct S { int a; bool m; };')
    fl = [('float', '1.5f'), ('double', '1.5'), ('long double', '1.5L')]
    others = fl + [('int', '1'), ('unsigned', '1u'), ('char', "'a'"), ('bool', 'true')]
    n = 0
    for t, own in fl:
        for l, v in others:
            n += 1
            f = acc if l == t else rej
            f('optional<%s, %s>' % (t, v), 'tiny::optional<%s, %s> o;' % (t, v) + use, minstd=20)
            f('aip<%s, %s>' % (t, v), 'tiny::optional_aip<%s, %s> o;' % (t, v) + use, minstd=20)
            f('via type %s, %s' % (t, v), 'tiny::optional_sentinel_via_type<%s, V> o;' % t + use, 'struct V { static constexpr %s value = %s; };' % (l, v))
            f('via type member %s, %s' % (t, v), 'tiny::optional_sentinel_via_type<S, V, &S::m> o;' + use, 'struct V { static constexpr %s value = %s; }; struct S { int a; %s m; };' % (l, v, t))
    for t in ('int', 'short', 'char', 'unsigned', 'long', 'long long', 'unsigned char', 'bool'):
        for l, v in fl:
            rej('optional<%s, %s>' % (t, v), 'tiny::optional<%s, %s> o;' % (t, v) + use, minstd=20)
            rej('via type %s, %s' % (t, v), 'tiny::optional_sentinel_via_type<%s, V> o;' % t + use, 'struct V { static constexpr %s value = %s; };' % (l, v))
            rej('member %s, %s' % (t, v), 'tiny::optional_sentinel_via_type<S, V, &S::m> o;' + use, 'struct V { static constexpr %s value = %s; }; struct S { int a; %s m; };' % (l, v, t))
            rej('member literal %s, %s' % (t, v), 'tiny::optional<S, &S::m, %s> o;' % v + use, 'struct S { int a; %s m; };' % t, minstd=20)
    enums = 'enum UE { ua, ub }; enum class SE { a, b }; enum class SC : unsigned char { a, b = 255 };'
    for e, v in (('UE', 'UE::ub'), ('SE', 'SE::b'), ('SC', 'SC::b')):
        acc('enum %s' % e, 'tiny::optional<%s, %s> o; static_assert(sizeof(o) == sizeof(%s));' % (e, v, e) + use, enums)
        acc('enum member %s' % e, 'tiny::optional<S, &S::m, %s> o;' % v + use, enums + 'struct S { int a; %s m; };' % e)
        acc('enum aip %s' % e, 'tiny::optional_aip<%s, %s> o;' % (e, v) + use, enums)
        acc('enum without sentinel %s' % e, 'tiny::optional<%s> o;' % e + use, enums)
        for bad in ('4', '0u', 'true'):
            rej('enum %s with %s' % (e, bad), 'tiny::optional<%s, %s> o;' % (e, bad) + use, enums)
            rej('enum member %s with %s' % (e, bad), 'tiny::optional<S, &S::m, %s> o;' % bad + use, enums + 'struct S { int a; %s m; };' % e)
        rej('enum aip %s without sentinel' % e, 'tiny::optional_aip<%s> o;' % e + use, enums)
        rej('enum member %s without sentinel' % e, 'tiny::optional<S, &S::m> o;' + use, enums + 'struct S { int a; %s m; };' % e)
    for t in ('int', 'unsigned', 'char', 'bool', 'double'):
        rej('%s with scoped enum sentinel' % t, 'tiny::optional<%s, SE::a> o;' % t + use, enums)
    # Unscoped enumerators convert to integers, but only those that the flag variable can represent are fine.
    for t, lo, hi in (('signed char', -128, 127), ('unsigned char', 0, 255), ('short', -2**15, 2**15 - 1), ('unsigned short', 0, 2**16 - 1), ('int', -2**31, 2**31 - 1),
                      ('unsigned', 0, 2**32 - 1), ('long long', -2**63, 2**63 - 1), ('unsigned long long', 0, 2**64 - 1), ('char16_t', 0, 2**16 - 1), ('int const', -2**31, 2**31 - 1)):
        for v in (lo - 1, lo, lo + 1, -1, 1, hi - 1, hi, hi + 1, 2**32 + lo, 2**32 + 1):
            if -2**63 <= v < 2**64:
                und = 'unsigned long long' if v >= 2**63 else 'long long'
                txt = '(-9223372036854775807ll - 1)' if v == -2**63 else '%d%s' % (v, 'ull' if v >= 2**63 else 'll')
                ens = ['enum QE : %s { qx = %s };' % (und, txt)]
                if -2**31 <= v < 2**31 and v in (lo - 1, hi + 1, hi):
                    ens.append('enum QE { qx = %d };' % v)
                for k, en in enumerate(ens):
                    f = acc if lo <= v <= hi else rej
                    f('%s with enumerator %d of kind %d' % (t, v, k), 'tiny::optional<%s, qx> o;' % t + use, en)
                    if v in (hi + 1, lo - 1, lo):
                        f('via type %s with enumerator %d of kind %d' % (t, v, k), 'tiny::optional_sentinel_via_type<%s, V> o;' % t + use, en + ' struct V { static constexpr QE value = qx; };')
                        if 'const' not in t:
                            f('member %s with enumerator %d of kind %d' % (t, v, k), 'tiny::optional<S, &S::m, qx> o;' + use, en + ' struct S { int a; %s m; };' % t)
    # Class types which the sentinel converts to.
    big = 'struct Big { int v; constexpr Big(int x) noexcept : v(x) { } friend constexpr bool operator==(Big const & a, Big const & b) noexcept { return a.v == b.v; } };'
    acc('class with integer sentinel', 'tiny::optional<Big, 5> o; o = Big(4); static_assert(sizeof(o) == sizeof(Big));' + use, big)
    acc('class member with integer sentinel', 'tiny::optional<S, &S::m, 5> o;' + use, big + ' struct S { int a; Big m; };')
    acc('class with integer sentinel via type', 'tiny::optional_sentinel_via_type<Big, std::integral_constant<int, 5>> o;' + use, big)
    rej('class with sentinel that does not convert', 'tiny::optional<Big, SE::a> o;' + use, big + enums)
    rej('SE with SC sentinel', 'tiny::optional<SE, SC::a> o;' + use, enums)
    acc('pointer with nullptr sentinel', 'tiny::optional<int *, nullptr> o; static_assert(sizeof(o) == sizeof(int *));' + use)
    acc('pointer via type', 'tiny::optional_sentinel_via_type<int *, V> o;' + use, 'struct V { static constexpr int * value = nullptr; };')
    rej('pointer with integer sentinel', 'tiny::optional<int *, 5> o;' + use)
    rej('int with nullptr sentinel', 'tiny::optional<int, nullptr> o;' + use)
    rej('pointer with sentinel of another pointer type', 'tiny::optional_sentinel_via_type<int *, V> o;' + use, 'struct V { static constexpr char * value = nullptr; };')

    # ---- member pointers
    two = 'struct A { int i; double d; bool b; int * p; float f; void (*fn)(); }; struct B { int i; double d; bool b; int * p; }; struct D : A { int x; };'
    for m in ('d', 'b', 'p'):
        acc('own member %s' % m, 'tiny::optional<A, &A::%s> o;' % m + use, two)
        rej('foreign member %s' % m, 'tiny::optional<A, &B::%s> o;' % m + use, two)
        rej('foreign member %s via type' % m, 'tiny::optional_sentinel_via_type<A, tiny::UseDefaultType, &B::%s> o;' % m + use, two)
    for m in ('f', 'fn'):
        acc('own member %s' % m, 'tiny::optional<A, &A::%s> o;' % m + use, two)
    acc('own member with sentinel', 'tiny::optional<A, &A::i, -1> o;' + use, two)
    acc('own member via type', 'tiny::optional_sentinel_via_type<A, std::integral_constant<int, 4>, &A::i> o;' + use, two)
    acc('own member bool with sentinel', 'tiny::optional<A, &A::b, true> o;' + use, two)
    rej('foreign member with sentinel', 'tiny::optional<A, &B::i, -1> o;' + use, two)
    rej('foreign member with sentinel (unused bits)', 'tiny::optional<A, &B::b, true> o;' + use, two)
    rej('foreign member with sentinel via type', 'tiny::optional_sentinel_via_type<A, std::integral_constant<int, 4>, &B::i> o;' + use, two)
    rej('foreign member with sentinel via type (unused bits)', 'tiny::optional_sentinel_via_type<A, std::integral_constant<bool, true>, &B::b> o;' + use, two)
    rej('member pointer for a non-class', 'tiny::optional<int, &B::d> o;' + use, two)
    rej('member of a derived class', 'tiny::optional<A, &D::x, -1> o;' + use, two)
    for m in ('int', 'unsigned char', 'long double', 'A', 'E', 'std::string', 'char', 'long long', 'int X::*'):
        rej('member %s without sentinel' % m, 'tiny::optional<S, &S::m> o;' + use, 'struct X; struct A { double d; }; enum class E { a }; struct S { %s m; };' % m)
        rej('member %s without sentinel via type' % m, 'tiny::optional_sentinel_via_type<S, tiny::UseDefaultType, &S::m> o;' + use, 'struct X; struct A { double d; }; enum class E { a }; struct S { %s m; };' % m)
    rej('member function pointer', 'tiny::optional<S, &S::f> o;' + use, 'struct S { int f(); };')
    rej('member out of range', 'tiny::optional<S, &S::m, 256> o;' + use, 'struct S { unsigned char m; };')
    acc('member with manipulator', 'tiny::optional<S, &S::m> o;' + use, 'enum class ME { none = 5 }; template <> struct tiny::optional_flag_manipulator<ME> : tiny::sentinel_flag_manipulator<ME, ME::none> { }; struct S { int a; ME m; };')

    # ---- optional_aip
    for t in ('short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long', 'long long', 'unsigned long long', 'bool', 'float', 'double', 'int *', 'void *', 'void (*)()', 'char const *'):
        acc('aip<%s>' % t, 'using T = %s; tiny::optional_aip<T> o; static_assert(sizeof(o) == sizeof(T));' % t + use)
    for t in ('char', 'signed char', 'unsigned char', 'long double', 'std::string', 'std::vector<int>', 'S', 'wchar_t', 'char16_t', 'char32_t', 'int S::*', 'std::nullptr_t', 'std::unique_ptr<int>', 'std::optional<int>', 'tiny::optional<int>', 'int (S::*)()'):
        rej('aip<%s> without sentinel' % t, 'tiny::optional_aip<%s> o;' % t + use, 'struct S { int i; };')
    for t, s in (('char', "'a'"), ('unsigned char', '255'), ('signed char', '-1'), ('wchar_t', '0'), ('int', '5'), ('unsigned', '7u'), ('char16_t', '1')):
        acc('aip<%s, %s>' % (t, s), 'using T = %s; tiny::optional_aip<T, %s> o; static_assert(sizeof(o) == sizeof(T));' % (t, s) + use)
    for t, s in (('unsigned', '-1'), ('char', '128'), ('unsigned char', '256'), ('short', '32768'), ('bool', '2')):
        rej('aip<%s, %s>' % (t, s), 'tiny::optional_aip<%s, %s> o;' % (t, s) + use)
    acc('aip with manipulator', 'tiny::optional_aip<ME> o; static_assert(sizeof(o) == sizeof(ME));' + use, 'enum class ME { none = 5 }; template <> struct tiny::optional_flag_manipulator<ME> : tiny::sentinel_flag_manipulator<ME, ME::none> { };')

    # ---- payloads
    ns = 'struct DD { ~DD() = delete; }; class PD { ~PD() { } public: PD() { } }; struct Inc; struct Abs { virtual void f() = 0; virtual ~Abs() { } };'
    man = 'template <class T> struct Man { static bool is_empty(T const &) noexcept; static void init_empty_flag(T &) noexcept; static void invalidate_empty_flag(T &) noexcept; };'
    for t in ('int &', 'int const &', 'int &&', 'std::string &', 'int[3]', 'int[]', 'void', 'void const', 'int(int)', 'std::nullopt_t', 'std::nullopt_t const', 'std::in_place_t', 'std::in_place_t const', 'std::nullopt_t volatile', 'DD', 'PD', 'Inc', 'DD const'):
        rej('payload %s' % t, 'tiny::optional<%s> o;' % t + use, ns)
        if t not in ('int &', 'int const &', 'int &&', 'std::string &', 'void', 'void const'):
            rej('payload %s, inplace' % t, 'tiny::optional_inplace<%s, Man<%s>> o;' % (t, t) + use, ns + man)
        rej('payload %s, via type' % t, 'tiny::optional_sentinel_via_type<%s, tiny::UseDefaultType> o;' % t + use, ns)
    for t in ('int', 'int const', 'std::string', 'std::string const', 'std::vector<int>', 'std::unique_ptr<int>', 'long double', 'S', 'U', 'Fin', 'E', 'NoDef', 'Immov', 'std::nullptr_t', 'int S::*', 'std::array<int, 3>', 'std::optional<int>', 'tiny::optional<int>', 'tiny::optional<double>', 'std::pair<int, std::string>',
              'std::atomic<int>', 'std::mutex', 'std::function<void()>', 'Over', 'std::monostate', 'Empty', 'int volatile', 'double const', 'char const *', 'void *', 'bool const', 'std::reference_wrapper<int>', 'Arr', 'PrivNew'):
        acc('payload %s' % t, 'tiny::optional<%s> o; o.reset(); (void)(o == std::nullopt);' % t + use,
            '#include <array>\n#include <atomic>\n#include <mutex>\n#include <variant>\nstruct S { int i; }; union U { int a; double b; }; struct Fin final { int i; }; enum class E { a }; struct NoDef { explicit NoDef(int) { } }; struct Immov { Immov() { } Immov(Immov const &) = delete; Immov & operator=(Immov const &) = delete; }; struct alignas(64) Over { int i; }; struct Empty { }; struct Arr { int a[7]; }; struct PrivNew { int i; private: void * operator new(std::size_t); void operator delete(void *); };\n')

    # ---- flag manipulators
    def manip(which):
        q = ['' if which == k else ' noexcept' for k in range(3)]
        return 'static bool is_empty(T const & t)%s { return t.v == 0; } static void init_empty_flag(T & t)%s { t.v = 0; } static void invalidate_empty_flag(T &)%s { }' % tuple(q)
    for k, fnname in ((None, 'all noexcept'), (0, 'is_empty'), (1, 'init_empty_flag'), (2, 'invalidate_empty_flag')):
        f = acc if k is None else rej
        base = 'struct T { int v; }; struct M { %s };' % manip(k)
        spec = 'struct T { int v; }; template <> struct tiny::optional_flag_manipulator<T> { %s }; struct S { int a; T m; };' % manip(k)
        f('manipulator %s, inplace' % fnname, 'tiny::optional_inplace<T, M> o;' + use, base)
        f('manipulator %s, payload' % fnname, 'tiny::optional<T> o;' + use, spec)
        f('manipulator %s, const payload' % fnname, 'tiny::optional<T const> o;' + use, 'struct T { int v; }; template <> struct tiny::optional_flag_manipulator<T const> { static bool is_empty(T const & t)%s { return t.v == 0; } static void init_empty_flag(T const & t)%s { const_cast<T &>(t).v = 0; } static void invalidate_empty_flag(T const &)%s { } };' % tuple('' if k == j else ' noexcept' for j in range(3)))
        f('manipulator %s, member' % fnname, 'tiny::optional<S, &S::m> o;' + use, spec)
        f('manipulator %s, member via type' % fnname, 'tiny::optional_sentinel_via_type<S, tiny::UseDefaultType, &S::m> o;' + use, spec)
        f('manipulator %s, aip' % fnname, 'tiny::optional_aip<T> o;' + use, spec)
    rej('class sentinel with throwing ==', 'tiny::optional_sentinel_via_type<T, V> o;' + use, 'struct T { int v; bool operator==(T const & o) const { return v == o.v; } }; struct V { static constexpr T value{4}; };')
    acc('class sentinel with noexcept ==', 'tiny::optional_sentinel_via_type<T, V> o;' + use, 'struct T { int v; bool operator==(T const & o) const noexcept { return v == o.v; } }; struct V { static constexpr T value{4}; };')
    rej('class sentinel without ==', 'tiny::optional_sentinel_via_type<T, V> o;' + use, 'struct T { int v; }; struct V { static constexpr T value{4}; };')
    acc('class sentinel as template argument', 'tiny::optional<T, T{4}> o; static_assert(sizeof(o) == sizeof(T));' + use, 'struct T { int v; bool operator==(T const & o) const noexcept = default; };', 20)
    acc('sentinel_flag_manipulator', 'tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, 4>> o;' + use)

    # ---- operations with forbidden arguments, for every value category
    for cat, e in (('&', 'o'), ('const&', 'std::as_const(o)'), ('&&', 'std::move(o)'), ('const&&', 'std::move(std::as_const(o))')):
        for t in ('tiny::optional<int>', 'tiny::optional<int, -1>', 'tiny::optional_sentinel_via_type<int, V>'):
            nsv = 'struct V { static constexpr int value = 4; }; static int g;'
            pre = '%s o = 42; ' % t
            tag = ' (%s, %s)' % (t, cat)
            acc('and_then' + tag, pre + '(void)%s.and_then([](auto &&) { return std::optional<long>(1); }); (void)%s.and_then([](auto &&) { return tiny::optional<long>(1); });' % (e, e), nsv)
            for r, x in (('int', 'return 1;'), ('void', 'return;'), ('int *', 'return nullptr;'), ('std::nullopt_t', 'return std::nullopt;')):
                rej('and_then returning %s%s' % (r, tag), pre + '(void)%s.and_then([](auto &&) -> %s { %s });' % (e, r, x), nsv)
            rej('and_then not callable' + tag, pre + '(void)%s.and_then([](int *) { return std::optional<long>(1); });' % e, nsv)
            acc('transform' + tag, pre + 'auto r = %s.transform([](auto &&) { return 1.5; }); static_assert(std::is_same_v<decltype(r), tiny::optional<double>>); (void)r;' % e, nsv)
            for r, x in (('int &', 'return g;'), ('int const &', 'return g;'), ('void', 'return;'), ('std::nullopt_t', 'return std::nullopt;'), ('std::in_place_t', 'return std::in_place;'), ('int &&', 'return std::move(g);')):
                ok = r in ('int &', 'int const &', 'int &&')  # remove_cv only, references are no object types
                rej('transform returning %s%s' % (r, tag), pre + '(void)%s.transform([](auto &&) -> %s { %s });' % (e, r, x), nsv)
            rej('transform not callable' + tag, pre + '(void)%s.transform([](int *) { return 1; });' % e, nsv)
            acc('or_else' + tag, pre + '(void)%s.or_else([] { return %s(1); });' % (e, t), nsv, 20)
            for r in ('std::optional<int>', 'int', 'tiny::optional<long>', 'void'):
                rej('or_else returning %s%s' % (r, tag), pre + '(void)%s.or_else([]() -> %s { return %s(); });' % (e, r, r), nsv, 20)
            acc('value_or' + tag, pre + '(void)%s.value_or(5); (void)%s.value_or(\'c\');' % (e, e), nsv)
            rej('value_or not convertible' + tag, pre + '(void)%s.value_or(nullptr);' % e, nsv)
    rej('value_or of a move-only payload (&)', 'tiny::optional<std::unique_ptr<int>> o; (void)o.value_or(nullptr);')
    acc('value_or of a move-only payload (&&)', 'tiny::optional<std::unique_ptr<int>> o; (void)std::move(o).value_or(nullptr);')
    rej('value_or with explicit conversion only', 'tiny::optional<X> o; (void)o.value_or(5);', 'struct X { explicit X(int) { } };')
    rej('swap of an immovable payload', 'tiny::optional<X> a, b; a.swap(b);', 'struct X { X() { } X(X &&) = delete; };')
    acc('swap of a movable payload', 'tiny::optional<std::string> a, b; a.swap(b); swap(a, b); using std::swap; swap(a, b);')
    rej('-> of an rvalue reference to an empty class without member', 'tiny::optional<int> o; o->x;')
    rej('assign through *const', 'tiny::optional<int> const o = 5; *o = 6;')
    rej('assign to const payload', 'tiny::optional<int const> o = 5; *o = 6;')
    acc('emplace of const payload', 'tiny::optional<int const> o = 5; o.emplace(6); o.reset();')
    rej('explicit in_place constructor', 'tiny::optional<X> o = {std::in_place, 1, 2}; (void)o;', 'struct X { X(int, int) { } };')
    rej('compare payloads without ==', 'tiny::optional<X> a, b; (void)(a == b);', 'struct X { };')
    rej('compare payloads without <', 'tiny::optional<X> a, b; (void)(a < b);', 'struct X { bool operator==(X const &) const { return true; } };')

    # ---- deduction and make_optional
    acc('deduction guide', 'tiny::optional a(5); static_assert(std::is_same_v<decltype(a), tiny::optional<int>>); int const & r = *a; tiny::optional b = r; static_assert(std::is_same_v<decltype(b), tiny::optional<int>>); tiny::optional c{std::string("x")}; static_assert(std::is_same_v<decltype(c), tiny::optional<std::string>>); tiny::optional d("lit"); static_assert(std::is_same_v<decltype(d), tiny::optional<char const *>>); tiny::optional e2 = a; static_assert(std::is_same_v<decltype(e2), tiny::optional<int>>);')
    acc('make_optional', 'auto a = tiny::make_optional(5); static_assert(std::is_same_v<decltype(a), tiny::optional<int>>); int const i = 3; auto b = tiny::make_optional(i); static_assert(std::is_same_v<decltype(b), tiny::optional<int>>); auto c = tiny::make_optional<int, -1>(4); static_assert(std::is_same_v<decltype(c), tiny::optional<int, -1>>); auto d = tiny::make_optional<std::string>(3, \'c\'); static_assert(std::is_same_v<decltype(d), tiny::optional<std::string>>); auto e = tiny::make_optional<std::vector<int>>({1, 2}); static_assert(std::is_same_v<decltype(e), tiny::optional<std::vector<int>>>); auto f = tiny::make_optional<A, &A::i, -1>(); static_assert(std::is_same_v<decltype(f), tiny::optional<A, &A::i, -1>>);', 'struct A { int i = 0; };')
    acc('metaprogramming helpers', 'static_assert(tiny::is_tiny_optional_v<tiny::optional<int>> && tiny::is_tiny_optional_v<tiny::optional_aip<int>> && tiny::is_tiny_optional_v<tiny::optional_inplace<int, tiny::sentinel_flag_manipulator<int, 4>>> && !tiny::is_tiny_optional_v<int> && !tiny::is_tiny_optional_v<std::optional<int>>); static_assert(tiny::optional<int>::is_tiny_optional);')
    acc('namespaces', 'tiny::optional<N::E> o = N::E::a; (void)o;', 'namespace N { enum class E { a }; }')
    return C
