#!/usr/bin/env python3
"""Development aid (not used by any check): systematic mutants of the headers, run against the quick checks.

  mutate.py list                       all mutants
  mutate.py run A-B|all [--checks C12,C09,...] [--log FILE] [--step K]
Mutants that do not compile in a minimal program are 'stillborn'. Survivors are printed with their diff.
"""
import os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILE = 'include/tiny/optional.h'
ORDER = ['C01', 'C12', 'C09', 'C10', 'C16', 'C11', 'C08', 'C13', 'C06', 'C05', 'C03', 'C02', 'C07', 'C14', 'C15', 'C17', 'C04']

SWAPS = [
    (r'std::move\(', '('), (r'std::forward<\w+>\(', '('),
    (r' noexcept\b(?!\()', ''), (r' noexcept\((?!false)', ' noexcept(false && '),
    (r'&&(?= [A-Za-z!(:])(?<=[\)\w>] &&)', '||'), (r'\|\|', '&&'), (r' == ', ' != '), (r' != ', ' == '),
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '),
    (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'if \((?!constexpr)', 'if (!'), (r'if constexpr \(', 'if constexpr (!'),
    (r'(?<=[ (])!(?=[a-zA-Z:(])', ''),
    (r'is_nothrow_move_', 'is_nothrow_copy_'), (r'is_nothrow_copy_', 'is_nothrow_move_'),
    (r'is_copy_', 'is_move_'), (r'is_move_', 'is_copy_'), (r'_constructible_v', '_assignable_v'), (r'_assignable', '_constructible'),
    (r'is_nothrow_', 'is_'), (r'is_convertible', 'is_constructible'), (r'is_constructible', 'is_convertible'),
    (r'std::enable_if_t<', 'std::enable_if_t<true || '),
    (r'std::negation<', 'std::bool_constant<true || '),
    (r'std::is_same_v', 'std::is_convertible_v'), (r'std::decay_t', ''), (r'remove_cvref_t', 'remove_reference_t'), (r'std::remove_const_t<', 'std::add_const_t<'),
    (r'\bexplicit ', ''), (r' const &$', ' &'), (r' const &&$', ' &&'), (r'\? (.*?) : (.*?);', r'? \2 : \1;'),
    (r'std::addressof\(', '(&'), (r'0xFE\b', '0xFD'), (r'sizeof\((\w+)\)', r'(sizeof(\1) - 1)'),
    (r'memcpy\(', 'memmove('), (r'\balignas\(', 'alignas(0 * '),
]


def code_lines(src):
    blk = False
    for i, l in enumerate(src):
        t = l.strip()
        if blk:
            if '*/' in t:
                blk = False
            continue
        if t.startswith('/*') and '*/' not in t:
            blk = True
            continue
        if not t or t.startswith('//'):
            continue
        yield i, l


def mutants(text):
    src = text.split('\n')
    out = []
    for i, l in code_lines(src):
        c = l.find('//')
        code, com = (l, '') if c < 0 else (l[:c], l[c:])
        skip = code.strip().startswith(('#', '"', 'static_assert')) or i < 250
        for pat, rep in (() if skip else SWAPS):
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if new != code:
                    out.append((i, [new + com]))
        t = code.strip()
        if re.match(r'(?:[\w:]+(?:<.*>)?(?:\(|\.|->).*|::new .*|std::.*|m\w+ = .*|assert\(.*|static_assert\(.*|TINY_\w+\(.*)\);$', t) and not t.startswith(('return', 'using', 'template', 'friend', '#')):
            out.append((i, [re.sub(r'\S.*', ';', code) if not t.startswith('static_assert') else '']))
        if t == 'static_assert(':
            # multi-line static_assert
            j = i
            while not src[j].rstrip().endswith(');'):
                j += 1
            out.append((i, [''] * (j - i + 1)))
        if '--cpp' in sys.argv and (t.startswith('#if') or t.startswith('#elif')):
            out.append((i, [re.sub(r'#(el)?if(n?def)? .*', lambda m: '#%sif 0' % (m.group(1) or ''), code)]))
            out.append((i, [re.sub(r'#(el)?if(n?def)? .*', lambda m: '#%sif 1' % (m.group(1) or ''), code)]))
    seen, res = set(), []
    for i, new in out:
        k = (i, tuple(new))
        if k not in seen:
            seen.add(k)
            res.append((i, new))
    return src, res


def main():
    repo = '/repo'
    text = subprocess.run(['git', '-C', repo, 'show', 'HEAD:' + FILE], stdout=subprocess.PIPE, check=True).stdout.decode()
    src, ms = mutants(text)
    if sys.argv[1] == 'list':
        for n, (i, new) in enumerate(ms):
            print('%4d %5d  - %s\n            + %s' % (n, i + 1, src[i].strip(), ' '.join(x.strip() for x in new)))
        return
    rng = sys.argv[2]
    step, checks, log = 1, ORDER, None
    a = sys.argv[3:]
    while a:
        k = a.pop(0)
        if k == '--step': step = int(a.pop(0))
        if k == '--checks': checks = a.pop(0).split(',')
        if k == '--log': log = a.pop(0)
    if rng == 'all':
        ids = range(0, len(ms), step)
    elif '-' in rng:
        lo, hi = rng.split('-')
        ids = range(int(lo), min(int(hi), len(ms) - 1) + 1, step)
    else:
        ids = [int(x) for x in rng.split(',')]
    d = tempfile.mkdtemp(prefix='mut_')
    subprocess.run('git -C /repo archive HEAD | tar x -C %s' % d, shell=True, check=True)
    probe = os.path.join(d, 'probe.cpp')
    open(probe, 'w').write('#include <tiny/optional.h>\n#include <string>\n'
        'struct S { double d; int i; };\n'
        'int main() { tiny::optional<int> a(5), b; a = b; a = 3; a.emplace(4); a.swap(b); tiny::optional<double> c; c = 2.0; tiny::optional<int, -1> e; e = 4;'
        ' tiny::optional<S, &S::i, -1> s; tiny::optional_aip<unsigned> u(3u); tiny::optional<std::string> t("a"); t = std::move(t); return a == b; }\n')
    try:
        for n in ids:
            i, new = ms[n]
            lines = list(src)
            lines[i:i + len(new)] = new
            open(os.path.join(d, FILE), 'w').write('\n'.join(lines))
            desc = '%d L%d - %s  ==>  %s' % (n, i + 1, src[i].strip(), ' '.join(x.strip() for x in new) or '(deleted)')
            ok = True
            for cc in ('g++ -std=c++20', 'g++ -std=c++17'):
                if subprocess.run(cc.split() + ['-w', '-fsyntax-only', '-I' + d + '/include', probe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                    ok = False
                    break
            res = 'stillborn'
            if ok:
                res = 'SURVIVED'
                errs = []
                first = []
                both = src[i] + ' '.join(new)
                if 'static_assert' in both: first = ['C16', 'C12']
                elif 'assert' in both: first = ['C13']
                elif i < 960: first = ['C16', 'C05', 'C06']
                elif re.search(r'noexcept|enable_if|requires|is_\w*(?:assign|construct)|negation|explicit', both): first = ['C12', 'C16', 'C10']
                elif i > 2440 and i < 2800: first = ['C09']
                elif i >= 2800: first = ['C11', 'C14']
                elif re.search(r'<F>|transform|and_then', both): first = ['C10']
                order = first + [c for c in checks if c not in first]
                for c, lite in [(c, '1') for c in order] + ([(c, '') for c in order] if '--full' in sys.argv else []):
                    e = dict(os.environ, VH_REPO=d, VH_FAILFAST='1', VH_LITE=lite, VERIF_TIER='quick', VERIF_SEED='1')
                    p = subprocess.run([sys.executable, os.path.join(V, 'run.py'), c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if p.returncode == 1:
                        res = 'killed ' + c
                        break
                    if p.returncode != 0:
                        errs.append(c + ':' + p.stdout.decode()[-200:].replace('\n', ' '))
                if res == 'SURVIVED' and errs:
                    res = 'ERROR ' + ' '.join(errs)
            line = '%-12s %s' % (res, desc)
            print(line, flush=True)
            if log:
                open(log, 'a').write(line + '\n')
    finally:
        shutil.rmtree(d)


main()
