"""The checks, one function per property."""
from core import *
import natvis as natvis_eval

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


ALL_GROUPS = list(range(0, 39))


# The kinds of deviations each property is about, on histories without and with an injected exception: a deviation of another
# kind must not end the exploration.
CATS = {
    'C01': ('STATE,RES,TRACE,EXC,LIFE,ALLOC', 'none'),
    'C02': ('LIFE,TRACE,ALLOC', None),
    'C03': ('EXC', 'EXC,STATE,RES,TRACE,LIFE,FLAG'),
    'C04': ('STATE,RES', None),
    'C05': ('STATE,RES', None),
    'C07': ('STATE,CANARY', None),
    'C08': ('FLAG,STATE,LIFE', None),
    'C10': ('STATE,RES,TRACE,EXC', None),
    'C14': ('STATE,RES,EXC', None),
}


def explore(run, groups, config, args=(), cxx_extra='', timeout=600, also=()):
    """'also': further argument lists to run the same executables with."""
    cats, fcats = CATS.get(run.prop, (None, None))
    m = (['--cats=' + cats] if cats else []) + (['--fcats=' + fcats] if fcats else [])
    return [Job('explore.cpp', config, ['VH_GROUP=%d' % g], [list(args) + m] + [list(a) + m for a in also], timeout=timeout, cxx_extra=cxx_extra) for g in groups]


def is_fault_path(f):
    return bool(re.search(r'@\d+[EL]', f.path))


EXPLORER_ASSUMPTIONS = [
    'two optionals A and B of one type at a time; value domain of 2-3 values plus moved-from; operation alphabet in harness/ops.hpp',
    'std::optional of libstdc++ is the reference model; monadic operations follow [optional.monadic] (validated against libstdc++ in C++23 mode)',
    'memory pre-filled with the stated patterns; one injected exception per operation',
]


@check
def C01(run):
    run.assumptions = EXPLORER_ASSUMPTIONS
    run.accept = lambda f: f.cat in ('STATE', 'RES', 'TRACE', 'EXC', 'CRASH', 'LIFE', 'ALLOC', 'BUILD', 'HANG') and not is_fault_path(f)
    if run.thorough:
        jobs = explore(run, ALL_GROUPS, 'gcc20', ['--seq=3', '--fills=0x00,0xFE,0xFF,0xA5'], timeout=1800, also=[['--unwind', '--seq=2']])
        jobs += explore(run, ALL_GROUPS, 'clang20', ['--seq=2'])
        jobs += explore(run, ALL_GROUPS, 'gcc23std', ['--seq=2'])
    else:
        jobs = explore(run, ALL_GROUPS, 'gcc20', ['--nofaults', '--seq=2'], also=[['--nofaults', '--unwind', '--seq=1', '--fills=0xFE']])
        jobs += explore(run, [0, 3, 6, 11, 12, 15, 20], 'gcc23std', ['--nofaults', '--seq=1'])
    run.run_jobs(jobs)


TRACKED = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 22, 23, 24, 26, 27, 28, 29, 30, 31, 32, 36]


@check
def C02(run):
    run.assumptions = EXPLORER_ASSUMPTIONS
    run.accept = lambda f: f.cat in ('LIFE', 'TRACE', 'ALLOC', 'CRASH', 'HANG')
    if run.thorough:
        jobs = explore(run, TRACKED, 'gcc20', ['--seq=3', '--fills=0x00,0xFE,0xFF'], timeout=1800)
        jobs += explore(run, TRACKED, 'asan', ['--seq=1'], timeout=1800)
        jobs += explore(run, TRACKED, 'noub', ['--seq=2'], timeout=1800)
    else:
        jobs = explore(run, TRACKED, 'gcc20', ['--seq=1', '--fills=0xFE'])
        jobs += explore(run, [0, 2, 6, 20], 'asan', ['--seq=1', '--fills=0x00', '--nofaults'])
    run.run_jobs(jobs)


@check
def C03(run):
    run.assumptions = EXPLORER_ASSUMPTIONS
    run.accept = lambda f: f.cat in ('EXC', 'CRASH', 'HANG') or (is_fault_path(f) and f.cat in ('STATE', 'RES', 'TRACE', 'LIFE', 'FLAG'))
    if run.thorough:
        jobs = explore(run, TRACKED, 'gcc20', ['--seq=0', '--fills=0x00,0xFE,0xFF'], timeout=1800, also=[['--unwind', '--seq=0']])
        jobs += explore(run, TRACKED, 'clang17', ['--seq=0'], timeout=1800)
        jobs += explore(run, TRACKED, 'gcc23O3', ['--seq=0'], timeout=1800)
    else:
        jobs = explore(run, TRACKED, 'gcc20', ['--seq=0', '--fills=0x00'])
        jobs += explore(run, [0, 2, 5, 6, 11], 'gcc17', ['--seq=0', '--fills=0x00', '--unwind'])
    run.run_jobs(jobs)


SHARDS8 = [['--shard=%d/8' % i] for i in range(8)]


def with_tier(runs, tier):
    return [r + ['--tier=%d' % tier] for r in runs]


ENUM_ASSUMPTIONS = [
    'every listed bit pattern is stored by: value/copy/move/in_place constructor, assignment over an empty and an engaged optional, emplace over both, swap with empty and engaged, and read by all observers',
    'compiler barriers keep the optimiser from folding the operations',
]


@check
def C04(run):
    t = 1 if run.thorough else 0
    run.assumptions = ENUM_ASSUMPTIONS + [
        'float: all 2^32 bit patterns; double and pointers: all patterns within windows of 22 (thorough 26) consecutive bits or Hamming distance 4 around the reserved pattern, 0, the default NaN, infinities and all-ones',
        'signalling NaNs are not passed by value on 32 bit (x87 would quieten them)']
    jobs = [Job('bits.cpp', 'gcc20O2nd', ['VH_PART_FLOAT=1'], with_tier(SHARDS8, t), timeout=1800),
            Job('bits.cpp', 'gcc20O2nd', ['VH_PART_DOUBLE'], with_tier(SHARDS8, t), timeout=3600),
            Job('bits.cpp', 'gcc20O2nd', ['VH_PART_PTR'], with_tier(SHARDS8, t), timeout=3600),
            Job('bits.cpp', 'gcc20O2', ['VH_PART_BOOL'], with_tier([[]], t)),
            Job('bits.cpp', 'clangfm', ['VH_PART_BOOL'], with_tier([[]], t)),
            Job('bits.cpp', 'gccfm', ['VH_PART_FLOAT=2'], with_tier([[]], 0)),
            Job('bits.cpp', 'clangfm', ['VH_PART_DOUBLE'], with_tier(SHARDS8[:1] if not t else SHARDS8, 0)),
            Job('bits.cpp', 'gcc17O2', ['VH_PART_FLOAT=2'], with_tier([[]] if not t else SHARDS8, t), timeout=3600),
            Job('bits.cpp', 'gcc32', ['VH_PART_PTR'], with_tier(SHARDS8[:2] if not t else SHARDS8, t), timeout=3600),
            Job('bits.cpp', 'gcc32', ['VH_PART_BOOL'], with_tier([[]], t)),
            Job('bits.cpp', 'gcc32', ['VH_PART_DOUBLE'], with_tier(SHARDS8[:2] if not t else SHARDS8, 0)),
            Job('bits.cpp', 'gcc32', ['VH_PART_FLOAT=2'], with_tier([[]], 0))]
    if t:
        jobs += [Job('bits.cpp', 'clang23O3', ['VH_PART_FLOAT=2'], with_tier(SHARDS8, t), timeout=3600),
                 Job('bits.cpp', 'clang32', ['VH_PART_PTR'], with_tier(SHARDS8, 0), timeout=3600),
                 Job('bits.cpp', 'gccfm', ['VH_PART_FLOAT=1'], with_tier(SHARDS8, 0), timeout=3600)]
    # The remaining ways to store a value (monadic operations, make_optional, value_or, ...) by exploration.
    jobs += explore(run, [3, 4, 5, 15, 16, 22, 25, 29, 34, 37, 38], 'gcc20O2nd', ['--nofaults', '--seq=1'])
    run.accept = lambda f: f.cat in ('VALUE', 'STATE', 'RES', 'CRASH', 'HANG')
    run.run_jobs(jobs)


INT_TYPES = ['signed char', 'unsigned char', 'char', 'short', 'unsigned short', 'int', 'unsigned', 'long', 'unsigned long',
             'long long', 'unsigned long long', 'wchar_t', 'char16_t', 'char32_t']


@check
def C05(run):
    t = 1 if run.thorough else 0
    run.assumptions = ENUM_ASSUMPTIONS + [
        '8 bit payloads: every sentinel x every value; 14 payload integer types x 14 literal types x boundary sentinels; 16 bit: all values; 32 bit: windows of 24 bits (thorough: all 2^32 values for the optional_aip defaults); 64 bit: windows of 22 bits / Hamming distance 4 around sentinel, 0, -1 and the sign bit',
        'floating point sentinels other than 0 and NaN']
    conf = 'gcc17O2' if t else 'gcc17'
    jobs = []
    for b in range(0, 256, 64):
        jobs.append(Job('sent.cpp', conf, ['VH_PART=0', 'VH_BASE=%d' % b], [[]], cxx_extra='-DNDEBUG'))
    for ty in INT_TYPES:
        jobs.append(Job('sent.cpp', conf, ['VH_PART=1', 'VH_BASE=0', 'VH_TYPE=' + ty, 'VH_TYPENAME="%s"' % ty], [[]], cxx_extra='-DNDEBUG'))
        if t:
            jobs.append(Job('sent.cpp', 'clang32', ['VH_PART=1', 'VH_BASE=0', 'VH_TYPE=' + ty, 'VH_TYPENAME="%s"' % ty], [[]], cxx_extra='-DNDEBUG'))
    jobs.append(Job('sent.cpp', 'gcc20O2nd', ['VH_PART=2', 'VH_BASE=0'], with_tier(SHARDS8, t), timeout=3600))
    jobs.append(Job('sent.cpp', 'gcc20O2nd', ['VH_PART=3', 'VH_BASE=0'], with_tier(SHARDS8, t), timeout=3600))
    jobs.append(Job('sent.cpp', 'gcc32', ['VH_PART=3', 'VH_BASE=0'], with_tier(SHARDS8 if t else SHARDS8[:1], 0), timeout=3600))
    jobs.append(Job('sent.cpp', 'noub17clang', ['VH_PART=2', 'VH_BASE=0'], with_tier(SHARDS8 if t else SHARDS8[:1], 0), timeout=3600))
    jobs += explore(run, [2, 10, 17, 18, 23, 24, 25, 30, 33, 36, 37, 38], 'gcc20O2nd', ['--nofaults', '--seq=1'])
    run.accept = lambda f: f.cat in ('VALUE', 'STATE', 'RES', 'CRASH', 'HANG')
    run.run_jobs(jobs)


MACROS = ['', NOUB, NOBIT, NOMEM, NOBIT + ' ' + NOMEM]


@check
def C06(run):
    run.assumptions = ['240 instantiations (payload x representation), each in every listed build configuration; the category of each instantiation is taken from the README',
                       'product of class layouts: 15 flag member types x 5 positions x 5 kinds of classes x up to 6 ways of instantiating the optional']
    combos = [('gcc17', m) for m in MACROS] + [('gcc20', m) for m in MACROS[:2]] + [('clang20', m) for m in MACROS[::2]] + [('gcc32', m) for m in MACROS[:2]]
    if run.thorough:
        combos = [(c, m) for c in ['gcc17', 'gcc20', 'clang20', 'gcc32', 'clang17', 'gcc23O3', 'clang23O3', 'clang32', 'gcc32x87', 'gccfm', 'clangfm'] for m in MACROS]
    jobs = []
    if True:
        for c, m in combos:
            jobs.append(Job('size.cpp', c, [], [[]], cxx_extra=m, name='size.cpp[%s %s]' % (c, m)))
            jobs.append(Job('size.cpp', c, ['VH_PRODUCT'], [[]], cxx_extra=m, name='size.cpp product[%s %s]' % (c, m)))
    run.run_jobs(jobs)


@check
def C07(run):
    t = 1 if run.thorough else 0
    run.assumptions = ['three adjacent optionals, two values each close to the reserved pattern; flag member at every byte offset up to the bound; memory pre-filled with 2 (thorough 4) patterns',
                       'payload padding is exempt when a payload is copied (the compiler may drop it)']
    run.accept = lambda f: f.cat in ('BYTES', 'CANARY', 'CRASH', 'HANG') or (f.cat == 'STATE' and 'explore' in f.job.src)
    jobs = []
    for c in (['gcc20', 'gcc32', 'gcc20O3nd'] + (['clang20', 'clang17', 'nomem', 'noub', 'clangfm'] if t else [])):
        for part in range(11):
            if c == 'gcc32' and part in (4, 5, 6, 7, 8) and not t:
                continue
            jobs.append(Job('contain.cpp', c, ['VH_PART=%d' % part, 'VH_OFFSETS=%d' % (17 if t else 9)], with_tier([[]], t), timeout=3600))
    jobs += explore(run, [2, 3, 4, 5, 8, 9, 10, 22, 23, 24, 29, 0, 6, 7, 14, 15, 33, 34], 'gcc20', ['--nofaults', '--seq=%d' % (2 if t else 1), '--fills=0x00,0xFE,0xFF'])
    run.run_jobs(jobs)


@check
def C08(run):
    run.assumptions = EXPLORER_ASSUMPTIONS + ['the manipulator itself is a protocol monitor: it records where an empty-flag object exists and destroys the memory it lies in when it is invalidated']
    run.accept = lambda f: f.cat in ('FLAG', 'STATE', 'LIFE', 'CRASH', 'HANG')
    g = [6, 7, 8, 9, 18, 26, 27, 32, 33]
    t = run.thorough
    jobs = explore(run, g, 'gcc20', ['--seq=%d' % (3 if t else 2), '--fills=0x00,0xFE,0xFF,0xE7'], timeout=3600)
    jobs += explore(run, g, 'gcc17', ['--seq=%d' % (2 if t else 1)], timeout=3600)
    jobs += explore(run, [6, 7, 26, 27, 33], 'noub', ['--seq=1'], timeout=3600)
    jobs += explore(run, g, 'gcc20O3nd', ['--seq=1'], timeout=3600)
    if t:
        jobs += explore(run, g, 'clang23O3', ['--seq=2'], timeout=3600)
        jobs += explore(run, g, 'asan', ['--seq=1'], timeout=3600)
        jobs += explore(run, [6, 7, 26, 27, 33], 'nomem', ['--seq=2'], timeout=3600)
    run.run_jobs(jobs)


@check
def C09(run):
    run.assumptions = ['operators of the payload are driven by every truth table of the six operators x throwing or not; every pair of {tiny (5 representations), std::optional, nullopt, value} x {engaged, empty}^2, with payloads of equal and different type',
                       'library payloads (integers, floating point incl. NaN, bool, pointers, strings, payloads with strong/weak/partial <=>) in lockstep with std::optional over 2-6 values each']
    confs = ['gcc20', 'gcc17', 'clang20']
    if run.thorough:
        confs += ['clang17', 'gcc23std', 'clang23O3', 'gcc32', 'noub', 'gcc20O3nd']
    run.run_jobs([Job('cmp.cpp', c, ['VH_PART=%d' % p], [[]]) for c in confs for p in range(10)])


@check
def C10(run):
    run.assumptions = ['10 representations x {empty, engaged} x {&, const&, &&, const&&} x callables (ref-qualified functor in all categories, move-only, argument-restricted, lambda, reference_wrapper, function, std::function, member function and data member pointers) x 6-12 result types x {returns, throws}',
                       'or_else only from C++20 on, as documented'] + EXPLORER_ASSUMPTIONS
    mon = re.compile(r'transform|and_then|or_else')
    run.accept = lambda f: f.cat in ('MONAD', 'CRASH', 'HANG') or (mon.search(f.path) and f.cat in ('STATE', 'RES', 'TRACE', 'LIFE', 'EXC'))
    jobs = [Job('mono.cpp', 'clang20O0', ['VH_PART=%d' % p], [[]]) for p in range(10)]
    jobs += [Job('mono.cpp', 'gcc17', ['VH_PART=%d' % p], [[]]) for p in (0, 2, 4, 7)]
    jobs += [Job('mono.cpp', 'gcc20O0', ['VH_PART=%d' % p], [[]]) for p in (1, 6)]
    jobs += explore(run, [0, 2, 3, 6, 8, 12, 33], 'gcc20', ['--seq=0', '--fills=0xFE'])
    if run.thorough:
        for c in ('gcc20', 'gcc23O3', 'clang17', 'gcc32', 'asan', 'noub'):
            jobs += [Job('mono.cpp', c, ['VH_PART=%d' % p, 'VH_WIDE'], [[]]) for p in range(10)]
        jobs += explore(run, ALL_GROUPS, 'gcc23std', ['--seq=1', '--fills=0xFE'], timeout=1800)
    run.run_jobs(jobs)


@check
def C11(run):
    t = 1 if run.thorough else 0
    run.assumptions = ['27 optional types; every sequence of 3 (thorough 4) of 10-19 operations from an empty optional in memory with 2 fill patterns; every sequence of 5 (thorough 6) insert/erase operations over 3-4 keys of an unordered_set and unordered_map',
                       '38 optional types in the enabled/disabled matrix; 16 payload types in up to 8 representations each (sequences of 3 (thorough 4) operations); every value of 8 and 16 bit payloads']
    confs = ['gcc17O2', 'gcc20', 'clang20'] + (['clang17', 'gcc23O3', 'gcc32', 'noub', 'asan'] if t else [])
    run.run_jobs([Job('hash.cpp', c, ['VH_PART=%d' % p], with_tier([[]], t), timeout=1800) for c in confs for p in range(8)])


@check
def C12(run):
    run.assumptions = ['payload classes: every combination of {noexcept, throwing, deleted} copy constructor and copy assignment x {noexcept, throwing, deleted, undeclared} move constructor and move assignment, plus 27 with own/deleted swap, each in 4 representations',
                       '29 payload types x 44 source types of conversions; 20 optional types for observers', 'std::optional of libstdc++ is the reference; triviality, constexpr and conversions between optionals are documented differences; swappability is only compared where the payload is swappable']
    confs = ['gcc20O0', 'gcc17', 'clang20O0'] + (['clang17', 'gcc23std', 'clang23O3', 'gcc32', 'noub', 'nomem'] if run.thorough else [])
    run.run_jobs([Job('traits.cpp', c, ['VH_PART=%d' % p], [[]]) for c in confs for p in range(11)])


@check
def C13(run):
    t = run.thorough
    run.assumptions = ['30 optional types x {storing the sentinel in 14 ways, dereferencing in 6 ways an optional that became empty in 5 ways}, payloads turning into the sentinel when copied/moved x 15 operations x 3 representations; each misuse in a child process that has to be ended by SIGABRT within the operation',
                       'legal histories: exploration with assertions enabled'] + EXPLORER_ASSUMPTIONS
    run.accept = lambda f: f.cat in ('ASSERT', 'CRASH', 'HANG')
    jobs = []
    for c in ['gcc17', 'clang20O0', 'gcc20O2'] + (['gcc32', 'clang17', 'gcc23std', 'clang32'] if t else []):
        jobs += [Job('asserts.cpp', c, ['VH_PART=%d' % p, 'VH_STRIDE=%d' % (1 if t else 4)], [[]]) for p in range(5)]
    for c in ['noub'] + (['noub17clang', 'nobit'] if t else []):
        jobs += [Job('asserts.cpp', c, ['VH_PART=%d' % p, 'VH_STRIDE=4', 'VH_NOTRICKS'], [[]]) for p in range(4)]
    for b in range(0, 256, 64):
        jobs.append(Job('sent.cpp', 'gcc17', ['VH_PART=0', 'VH_BASE=%d' % b], [[]]))
    jobs += explore(run, ALL_GROUPS, 'gcc17', ['--nofaults', '--seq=%d' % (2 if t else 0), '--fills=0x00,0xFE'], timeout=1800)
    if t:
        jobs += explore(run, ALL_GROUPS, 'clang20', ['--seq=1', '--fills=0xFE'], timeout=1800)
    run.run_jobs(jobs)


NOBIT_SKIP = {3, 4, 5, 22, 29, 31, 32, 34, 38}  # a member double/bool/pointer cannot be the flag without unused bits
C14_QUICK = [0, 2, 3, 4, 6, 7, 10, 15, 16, 17, 18, 25, 33]
MACRO_SETS = [('none', ''), ('NOUB', NOUB), ('NOBIT', NOBIT), ('NOMEM', NOMEM), ('NOBIT+NOMEM', NOBIT + ' ' + NOMEM)]


def link_matrix(run):
    base = ['gcc20', 'gcc17O2', 'clang20', 'gccfm'] + (['clang17', 'gcc23O3', 'clang23O3', 'gcc20O0', 'clangfm'] if run.thorough else ['clang23O3'])
    objs = {}

    def comp(key):
        part, conf, mname, mflags = key
        out = os.path.join(run.tmp, 'lk_%s_%s_%s.o' % (part, conf, mname.replace('+', '_')))
        cmd = CONFIGS[conf].split() + mflags.split() + (['-DVH_NOMEMBIT'] if mname == 'NOBIT' else []) + (['-DVH_FWD'] if part == 'prov' or conf == 'clang20' else []) + ['-w', '-I' + INCLUDE, '-I' + HARNESS, '-c', os.path.join(HARNESS, 'link_%s.cpp' % part), '-o', out]
        rc, txt = sh(cmd, 300)
        return key, out if rc == 0 else None, txt

    keys = [(p, c, n, f) for p in ('prov', 'user') for c in base for n, f in MACRO_SETS]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for key, out, txt in ex.map(comp, keys):
            if out is None:
                ok, ptxt = run.probe(CONFIGS[key[1]] + ' ' + key[3])
                if not ok:
                    raise CheckError('header does not compile in %s %s: %s' % (key[1], key[2], ptxt[-800:]))
                run.check(False, 'BUILD', 'link_%s[%s %s]' % key[:3], 'compile', ([l for l in txt.splitlines() if 'error' in l] or ['?'])[0][:300])
            objs[key[:3]] = out

    def nm(obj, defined):
        rc, out = sh(['nm', '-P', '--defined-only' if defined else '--undefined-only', obj], 60)
        return {l.split()[0] for l in out.splitlines() if re.match(r'_Z\d+k[A-Z]\w*', l)}

    def pair(a, b):
        pc, pm = a
        uc, um = b
        po, uo = objs.get(('prov', pc, pm)), objs.get(('user', uc, um))
        if not po or not uo:
            return
        exe = os.path.join(run.tmp, 'lk_%s_%s_%s_%s' % (pc, pm, uc, um))
        name = 'provider %s %s, user %s %s' % (pc, pm, uc, um)
        same = pm == um
        rc, txt = sh(['g++', po, uo, '-o', exe], 120)
        n = 1
        if same:
            run.check(rc == 0, 'LINK', 'linking', 'link=' + name, 'equal settings do not link: ' + txt.strip()[-300:])
            if rc == 0:
                r2, out = sh([exe], 60)
                m = re.search(r'OPS=(\d+)', out)
                n = int(m.group(1)) if m else 1
                for l in out.splitlines():
                    if l.startswith('FAIL|'):
                        p = l.split('|')
                        run.check(False, 'LINK', name, p[3], p[4])
                if r2 != 0 and 'FAIL|' not in out:
                    run.check(False, 'LINK', name, 'link=run', 'exit status %s' % r2)
        else:
            run.check(rc != 0, 'LINK', 'linking', 'link=' + name, 'incompatible settings link without an error')
            common = nm(po, True) & nm(uo, False)
            run.check(not common, 'LINK', 'linking', 'link=' + name, 'functions that link despite incompatible settings: ' + ' '.join(sorted(common)[:3]))
        if os.path.exists(exe):
            os.unlink(exe)
        run.stat('link ' + name, pc, states=1, transitions=n, executions=1)

    pairs = []
    names = [n for n, _ in MACRO_SETS]
    equivalent = {('NOUB', 'NOBIT+NOMEM'), ('NOBIT+NOMEM', 'NOUB')}
    for pm in names:
        for um in names:
            if (pm, um) in equivalent:
                continue
            for pc in base:
                for uc in base:
                    if pm == um or run.thorough or pc == uc:
                        pairs.append(((pc, pm), (uc, um)))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(lambda p: pair(*p), pairs))
    run.samples.append('provider compiled with gcc -std=c++20 -O1, user with clang -std=c++23 -O3 -DNDEBUG, both NOMEM: must link and exchange 18 kinds of optionals')


@check
def C14(run):
    t = run.thorough
    run.assumptions = EXPLORER_ASSUMPTIONS + ['link matrix: %d macro settings x build options, 18 kinds of optionals passed as parameters' % len(MACRO_SETS),
                                              'return types alone are not part of a symbol name, so functions that only return an optional are out of reach of the mechanism']
    run.accept = lambda f: f.cat in ('LINK', 'STATE', 'RES', 'EXC', 'CRASH', 'HANG')
    link_matrix(run)
    if t:
        jobs = []
        for c in ('gcc17', 'gcc23O3', 'gccfm', 'clang17', 'clang23O3', 'clangfm', 'gcc32', 'gcc32x87', 'clang32', 'noub', 'nobit', 'nomem', 'noub17clang', 'gcc20O2nd', 'gcc17O2nd', 'clang17O2nd'):
            groups = [g for g in ALL_GROUPS if not (c == 'nobit' and g in NOBIT_SKIP)]
            jobs += explore(run, groups, c, ['--seq=1', '--fills=0xFE', '--nofaults'], timeout=1800)
    else:
        jobs = explore(run, C14_QUICK, 'gcc23O3', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, C14_QUICK, 'clangfm', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, C14_QUICK, 'noub', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, [3, 4, 5, 2, 17, 16], 'gcc32', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, C14_QUICK + [1, 37], 'gcc17O2nd', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, [0, 3, 7, 15, 17, 33, 36], 'clang17O2nd', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, [2, 15, 16, 17], 'clang32', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, [0, 2, 6, 15, 16, 17], 'nobit', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, [2, 10, 24, 6], 'nomem', ['--seq=0', '--fills=0xFE', '--nofaults'])
        jobs += explore(run, [3, 15, 16, 25], 'gccfm', ['--seq=0', '--fills=0xFE', '--nofaults'])
    run.run_jobs(jobs)


@check
def C15(run):
    t = 1 if run.thorough else 0
    run.assumptions = ['19 optional types; 28 const operations on write-protected pages x 7 histories; 25 operations x 4 start states, interrupted at every machine instruction (one preemption) by a 22-operation history of another thread on other optionals or by const access to the same one',
                       'two threads with one operation each (thorough: also two), switched at payload operations, flag manipulations and callbacks: all schedules with at most 3 (thorough 4) preemptions; all op-level merges of all pairs of two-operation histories',
                       'sequentially consistent memory; ThreadSanitizer run of three real threads is auxiliary']
    jobs = []
    for c in ['gcc20'] + (['clang17', 'gcc20O3nd', 'noub'] if t else []):
        jobs += [Job('conc.cpp', c, ['VH_PART=%d' % p, 'VH_MODE=1'], with_tier([[]], t), timeout=3600) for p in range(9)]
    for c in ['gcc20'] + (['clang17', 'gcc20O3nd', 'gcc32', 'noub', 'clang20O0'] if t else ['clang17']):
        jobs += [Job('conc.cpp', c, ['VH_PART=%d' % p, 'VH_MODE=0'], with_tier([[]], t), timeout=600) for p in range(9)]
    for c in ['gcc20'] + (['gcc17O2', 'noub'] if t else []):
        jobs += [Job('conc.cpp', c, ['VH_PART=%d' % p, 'VH_MODE=2'], with_tier([[]], t), timeout=3600) for p in range(9)]
        jobs += [Job('conc.cpp', c, ['VH_PART=%d' % p, 'VH_MODE=3'], with_tier([[]], t), timeout=3600) for p in range(9)]
    run.run_jobs(jobs)
    # Auxiliary: ThreadSanitizer, where it works.
    probe = os.path.join(run.tmp, 'tsan_probe')
    open(probe + '.cpp', 'w').write('#include <thread>\nint main(){ std::thread t([]{}); t.join(); }\n')
    rc, _ = sh(CONFIGS['tsan'].split() + [probe + '.cpp', '-o', probe], 120)
    if rc == 0 and sh([probe], 60)[0] == 0:
        run.run_jobs([Job('conc.cpp', 'tsan', ['VH_PART=%d' % p, 'VH_MODE=4'], [[]], timeout=600) for p in range(9)])
    else:
        run.extra['tsan'] = 'not available'


class Syntax:
    """Compiles many small pieces of code against the header with one compiler configuration, using a precompiled header."""
    HEAD = '#include <tiny/optional.h>\n#include <cstdint>\n#include <functional>\n#include <memory>\n#include <string>\n#include <type_traits>\n#include <utility>\n#include <vector>\n'

    def __init__(self, run, config, extra=''):
        self.run, self.config, self.extra = run, config, extra
        self.cxx = (CONFIGS[config] + ' ' + extra).split() + ['-w', '-I' + INCLUDE]
        self.clang = 'clang' in self.cxx[0]
        self.dir = tempfile.mkdtemp(prefix='syn_', dir=run.tmp)
        self.n = 0
        self.lock = threading.Lock()
        h = os.path.join(self.dir, 'all.hpp')
        with open(h, 'w') as f:
            f.write(self.HEAD)
        ok, txt = run.probe(CONFIGS[config] + ' ' + extra)
        if not ok:
            raise CheckError('header does not compile in %s %s: %s' % (config, extra, txt[-800:]))
        pch = h + ('.pch' if self.clang else '.gch')
        rc, txt = sh(self.cxx + ['-x', 'c++-header', h, '-o', pch], 300)
        self.use = ['-include-pch', pch] if self.clang and rc == 0 else ['-include', h]

    def compiles(self, ns, fn):
        """(accepted, first error)"""
        with self.lock:
            self.n += 1
            src = os.path.join(self.dir, 'c%d.cpp' % self.n)
        with open(src, 'w') as f:
            f.write('%s\nvoid vh_function()\n{\n%s\n}\n' % (ns, fn))
        cmd = self.cxx + self.use + ['-fsyntax-only', src]
        rc, txt = sh(cmd, 120)
        if rc is None or rc not in (0, 1) or 'internal compiler error' in txt:
            rc, txt = sh(cmd, 300)
            if rc is None or rc not in (0, 1):
                raise CheckError('compiler problem: %s: %s' % (' '.join(cmd), txt[-500:]))
        if rc == 0:
            os.unlink(src)
        err = [l for l in txt.splitlines() if 'error' in l]
        return rc == 0, (err or [''])[0][:300]


def syntax_matrix(run, config, extra, todo, batch=40):
    """todo: list of (name, ns, fn, accept). Rejections are decided one by one, acceptances in batches (one by one if a batch fails)."""
    syn = Syntax(run, config, extra)
    label = (config + ' ' + extra).strip()
    reasons = {}

    def one(c):
        ok, err = syn.compiles(c[1], c[2])
        if ok != c[3]:
            ok2, err2 = syn.compiles(c[1], c[2])
            if ok2 == ok:
                run.check(False, 'COMPILE', label, c[0], ('accepted, but it has to be rejected: ' if ok else 'rejected, but it is legal: ') + (c[1] + ' ' + c[2])[:300] + (' -- ' + err if err else ''))
        if not c[3]:
            m = re.search(r'error: (.{0,60})', err)
            with syn.lock:
                reasons.setdefault(m.group(1) if m else err, c[0])
        return 1

    def many(cs):
        ns = '\n'.join('namespace n%d { %s }' % (i, c[1]) if '#include' not in c[1] and 'tiny::' not in c[1] else c[1] for i, c in enumerate(cs))
        fn = '\n'.join('{ using namespace n%d; %s }' % (i, c[2]) if '#include' not in c[1] and 'tiny::' not in c[1] else '{ %s }' % c[2] for i, c in enumerate(cs))
        ok, _ = syn.compiles(ns, fn)
        return len(cs) if ok else sum(map(one, cs))

    acc = [c for c in todo if c[3]]
    rej = [c for c in todo if not c[3]]
    # Only pieces whose namespace-scope part can be put into a namespace can share a translation unit.
    plain = [c for c in acc if '#include' not in c[1] and 'tiny::' not in c[1]]
    own = [c for c in acc if not ('#include' not in c[1] and 'tiny::' not in c[1])]
    batches = [plain[i:i + batch] for i in range(0, len(plain), batch)]
    with cf.ThreadPoolExecutor(NCPU) as ex:
        n = sum(ex.map(one, rej)) + sum(ex.map(one, own)) + sum(ex.map(many, batches))
    run.stat('instantiations', label, states=len(todo), transitions=syn.n, executions=len(rej) + len(own), accepted=len(acc), rejected=len(rej))
    run.extra.setdefault('rejection_reasons', {}).setdefault(label, sorted(reasons.items())[:60])
    for c in (todo[:1] + todo[-1:]):
        run.samples.append('%s: %s -> %s' % (label, (c[1] + ' ' + c[2]).strip()[:160], 'accepted' if c[3] else 'rejected'))


@check
def C16(run):
    import cases
    t = run.thorough
    run.assumptions = ['14 integral payload types x 14 literal types x all boundary values (12-23 each) x ways to give the sentinel; hand-written matrix of about 500 further legal and illegal instantiations; each in the listed compiler configurations',
                       'a rejection is any compile error of that instantiation alone; LP64 and ILP32 type sizes']

    def sent(forms, every):
        out = []
        i = 0
        for ty, l, v, ok in cases.sentinel_cases():
            for f in forms:
                i += 1
                if not every and not ok:
                    lo, hi = cases.limits(ty)
                    if v not in (lo - 1, hi + 1) or l not in ('int', 'unsigned', 'long long', 'unsigned long long', 'short', 'char32_t'):
                        continue
                if not every and ok and f != 'direct':
                    if l not in ('int', 'unsigned long long', 'char', ty):
                        continue
                ns, fn = cases.form(f, i, ty, cases.lit(l, v), l)
                out.append(('%s sentinel %s of type %s for %s' % (f, v, l, ty), ns, fn, ok))
        return out

    def std_of(c):
        return int(re.search(r'c\+\+(\d+)', CONFIGS[c]).group(1))

    syntax_matrix(run, 'clang17', '', sent(['direct'], True))
    syntax_matrix(run, 'clang20O0', '', cases.misc_cases(20))
    if t:
        syntax_matrix(run, 'clang20O0', '', sent(cases.FORMS, True))
        syntax_matrix(run, 'gcc17', '', sent(['direct', 'viamember'], True))
        for c in ('clang17', 'gcc17', 'gcc20O0', 'clang23O3', 'gcc23O3'):
            syntax_matrix(run, c, '', cases.misc_cases(std_of(c)))
    else:
        syntax_matrix(run, 'clang17', '', sent(cases.FORMS[1:], False))
        syntax_matrix(run, 'gcc17', '', cases.misc_cases(17))


def natvis(run):
    """The debugger visualizer: reserved patterns and inline namespace."""
    import xml.etree.ElementTree as ET
    path = os.path.join(REPO, 'include', 'tiny_optional.natvis')
    try:
        root = ET.parse(path).getroot()
    except FileNotFoundError:
        run.check(False, 'NATVIS', 'natvis', 'file', 'include/tiny_optional.natvis is missing')
        return
    except ET.ParseError as e:
        run.check(False, 'NATVIS', 'natvis', 'file', 'not well-formed: %s' % e)
        return
    # Namespace of the current version in the default and in the "no UB tricks" configuration, from the compiled code itself.
    src = os.path.join(run.tmp, 'ns.cpp')
    with open(src, 'w') as f:
        f.write('#include <tiny/optional.h>\nvoid vh_probe_symbol(tiny::optional<int> const &);\nvoid vh_use() { vh_probe_symbol(tiny::optional<int>()); }\n')
    ns = {}
    for name, fl in (('default', ''), ('no UB tricks', NOUB)):
        obj = src + '.o'
        rc, txt = sh(CONFIGS['gcc17'].split() + fl.split() + ['-w', '-I' + INCLUDE, '-c', src, '-o', obj], 120)
        if rc != 0:
            raise CheckError('namespace probe does not compile: ' + txt[-500:])
        rc, txt = sh(['nm', '-C', '--undefined-only', obj], 60)
        m = re.search(r'vh_probe_symbol\(tiny::(\w+)::optional<', txt)
        ns[name] = m.group(1) if m else ''
    n = 0
    for el in root.iter():
        for v in list(el.attrib.values()) + [el.text or '']:
            for u in re.findall(r'\btiny\d+\w*', v):
                n += 1
                run.check(u == ns['default'], 'NATVIS', 'natvis', 'namespace', 'natvis refers to %s, the library uses %s' % (u, ns['default']))
    run.check(n > 0, 'NATVIS', 'natvis', 'namespace', 'natvis does not refer to the inline namespace %s' % ns['default'])
    text = open(path, encoding='utf-8').read()
    docs = set(re.findall(r'\btiny\d+_\w+', text)) - {ns['default']}
    run.check(docs <= {ns['no UB tricks']}, 'NATVIS', 'natvis', 'comment', 'natvis documents namespace(s) %s, the library uses %s' % (sorted(docs), ns['no UB tricks']))
    # Every visualizer evaluated on every listed object representation (exhaustively); see natvis.py.
    done = []
    bad = set()

    def judge(ok, what, txt):
        key = what.split(',')[0]
        if not ok and key in bad:
            return  # one report per kind of optional
        if not ok:
            bad.add(key)
        run.check(ok, 'NATVIS', 'natvis', 'evaluation for ' + what, txt)
    unsupported = natvis_eval.evaluate(root, judge, done.append)
    want = {'bool': {0xfe}, 'double': {0x7ff8fedcba987654}, 'float': {0x7fedcba9}, '*': {0xffffffff - 8, 0xffff800000000000 - 1}}
    seen = {}
    for ty in root.iter():
        if not ty.tag.endswith('Type'):
            continue
        m = re.search(r'(InplaceStoredTypeDecomposition|InplaceDecompositionViaMemPtr).*optional_flag_manipulator<([\w*]+),', ty.get('Name', ''))
        if not m:
            continue
        exprs = ' '.join(c.get('Expression', '') for c in ty.iter() if c.tag.endswith('Intrinsic'))
        vals = set()
        for num, sub in re.findall(r'==\s*\(?\s*(0x[0-9a-fA-F\']+|\d+)[uUlL]*(?:\s*-\s*(\d+))?', exprs):
            v = int(num.replace("'", ''), 0) - int(sub or 0)
            if not (v == 4 and m.group(2) == '*'):
                vals.add(v)
        seen[(m.group(1), m.group(2))] = vals
        if unsupported and vals:
            # The evaluator could not judge everything: at least the constants have to be the documented ones.
            run.check(vals == want.get(m.group(2), vals), 'NATVIS', 'natvis', 'constants of %s' % m.group(2), 'natvis compares with %s, documented is %s' % (sorted(map(hex, vals)), sorted(map(hex, want.get(m.group(2), [])))))
    for k in want:
        run.check(any(s[1] == k for s in seen), 'NATVIS', 'natvis', 'constants of %s' % k, 'no visualizer')
    run.stat('natvis', 'gcc17', states=sum(done), transitions=2 * sum(done), executions=n)
    if unsupported:
        run.assumptions.append('Natvis expressions not evaluated: ' + '; '.join(unsupported)[:500])


@check
def C17(run):
    t = 1 if run.thorough else 0
    run.assumptions = ['8 kinds of types with unused bits x {plain, const, optional_aip, via type, 3 member placements}; all sequences of 3 (thorough 4) out of 19 operations on two optionals, in memory with 3 fill patterns; the pattern is read back byte-wise whenever has_value() is false',
                       'the Natvis file is parsed and its conditions are evaluated by lib/natvis.py on enumerated representations (pattern, Hamming distance 1, neighbours; members at 3 offsets; 32 and 64 bit), not by Visual Studio']
    natvis(run)
    confs = ['gcc17O2', 'clang20', 'gcc32', 'gccfm'] + (['clangfm', 'clang32', 'gcc23O3', 'gcc32x87', 'clang17', 'gcc20O0'] if t else [])
    run.run_jobs([Job('patt.cpp', c, ['VH_PART=%d' % p], with_tier([[]], t), timeout=1800) for c in confs for p in range(4)])
