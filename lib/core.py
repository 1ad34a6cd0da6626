"""Build/run infrastructure shared by all checks."""
import concurrent.futures as cf
import json, os, re, shlex, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VH_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
INCLUDE = os.path.join(REPO, 'include')
FAILFAST = bool(os.environ.get('VH_FAILFAST'))   # development aid: stop at the first violation
LITE = bool(os.environ.get('VH_LITE'))           # development aid: a fraction of the jobs (the mutation campaign tries this first)
NCPU = min(8, os.cpu_count() or 1)

# Build configurations: name -> compiler and flags.
NOUB = '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS'
NOBIT = '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS'
NOMEM = '-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER'
CONFIGS = {
    'gcc20': 'g++ -std=c++20 -O1',
    'gcc20O0': 'g++ -std=c++20 -O0',
    'clang20O0': 'clang++ -std=c++20 -O0',
    'gcc17': 'g++ -std=c++17 -O0',
    'gcc17O2': 'g++ -std=c++17 -O2',
    'gcc17O2nd': 'g++ -std=c++17 -O2 -DNDEBUG',
    'clang17O2nd': 'clang++ -std=c++17 -O2 -DNDEBUG',
    'gcc23std': 'g++ -std=c++23 -O1 -DVH_STD_MONADIC',
    'gcc23O3': 'g++ -std=c++23 -O3 -DNDEBUG -DVH_STD_MONADIC',
    'gcc20O2': 'g++ -std=c++20 -O2',
    'gcc20O2nd': 'g++ -std=c++20 -O2 -DNDEBUG',
    'gcc20O3nd': 'g++ -std=c++20 -O3 -DNDEBUG',
    'gccfm': 'g++ -std=c++20 -O3 -ffast-math -DNDEBUG -DVH_FASTMATH',
    'clang20': 'clang++ -std=c++20 -O1',
    'clang17': 'clang++ -std=c++17 -O0',
    'clang23O3': 'clang++ -std=c++23 -O3 -DNDEBUG',
    'clangfm': 'clang++ -std=c++20 -O3 -ffast-math -DNDEBUG -DVH_FASTMATH',
    'gcc32': 'g++ -m32 -msse2 -mfpmath=sse -std=c++20 -O1',
    'gcc32x87': 'g++ -m32 -std=c++17 -O2',
    'clang32': 'clang++ -m32 -std=c++20 -O2',
    'noub': 'g++ -std=c++20 -O1 ' + NOUB,
    'nobit': 'g++ -std=c++20 -O1 ' + NOBIT,
    'nomem': 'g++ -std=c++20 -O1 ' + NOMEM,
    'noub17clang': 'clang++ -std=c++17 -O1 ' + NOUB,
    'tsan': 'clang++ -std=c++20 -O1 -g -fsanitize=thread',
    'asan': 'clang++ -std=c++20 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=function,bool,enum,vptr',
}


class CheckError(Exception):
    pass


class Fail:
    def __init__(self, job, cat, flavour, path, msg):
        self.job, self.cat, self.flavour, self.path, self.msg = job, cat, flavour, path, msg

    def key(self):
        return '%s|%s|%s' % (self.cat, self.flavour, self.path)


class Job:
    """One translation unit in one configuration, executed with one or several argument lists."""

    def __init__(self, src, config, defs=(), runs=((),), name=None, timeout=600, cxx_extra='', link=''):
        self.src, self.config, self.defs, self.runs = src, config, list(defs), [list(r) for r in runs]
        self.timeout = timeout
        self.link = link
        self.cxx = CONFIGS[config] + (' ' + cxx_extra if cxx_extra else '')
        self.name = name or '%s[%s]%s' % (os.path.basename(src), config, ''.join(' ' + d for d in defs))
        self.exe = None

    def compile_cmd(self, out):
        return self.cxx.split() + ['-w', '-I' + INCLUDE, '-I' + HARNESS] + ['-D' + d for d in self.defs] + [
            os.path.join(HARNESS, self.src), '-o', out] + (self.link.split() if self.link else [])


def sh(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e['LC_ALL'] = 'C'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:new_delete_type_mismatch=1'
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd, env=e,
                           stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as ex:
        return None, (ex.stdout or b'').decode('utf-8', 'replace')


class Run:
    def __init__(self, prop, tier, keep=False):
        self.prop, self.tier, self.keep = prop, tier, keep
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix='vh_%s_' % prop)
        self.lock = threading.Lock()
        self.fails = []
        self.stats = []          # list of dicts of integers with 'flavour', 'config'
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.level = 'model_checking'
        self.accept = lambda f: True
        self.notes = []
        self._probe = {}
        self.exhaustive = True
        self.ignored = 0

    def cleanup(self):
        if not self.keep:
            shutil.rmtree(self.tmp, ignore_errors=True)

    # ---- basic probes -------------------------------------------------------------------------
    def probe(self, cxx):
        """Does a translation unit that merely includes the header and uses it trivially compile in this configuration?"""
        with self.lock:
            if cxx in self._probe:
                return self._probe[cxx]
        src = os.path.join(self.tmp, 'probe_%d.cpp' % abs(hash(cxx)))
        with open(src, 'w') as f:
            f.write('#include <tiny/optional.h>\nint main(){ return 0; }\n')
        rc, out = sh(cxx.split() + ['-w', '-I' + INCLUDE, '-fsyntax-only', src], 120)
        with self.lock:
            self._probe[cxx] = (rc == 0, out)
        return self._probe[cxx]

    # ---- running jobs -------------------------------------------------------------------------
    def run_jobs(self, jobs):
        done = []
        if LITE:
            first = {}
            for j in jobs:
                first.setdefault(j.src, j.config)
            keep = {'VH_GROUP=%d' % g for g in (0, 2, 3, 6, 11, 12, 15, 33, 36)}
            jobs = [j for j in jobs if first[j.src] == j.config and (j.src != 'explore.cpp' or keep & set(j.defs))]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            futs = [ex.submit(self._build, j, i) for i, j in enumerate(jobs)]
            runs = []
            for f in cf.as_completed(futs):
                j = f.result()
                if j is not None:
                    for args in j.runs:
                        runs.append(ex.submit(self._exec, j, args))
            for r in runs:
                done.append(r.result())
        return done

    def _build(self, job, i):
        if FAILFAST and self.fails:
            return None
        out = os.path.join(self.tmp, 'j%d_%s' % (i, abs(hash(job.name)) % 10**9))
        cmd = job.compile_cmd(out)
        rc, txt = sh(cmd, 600)
        if rc != 0:
            time.sleep(0.2)
            rc, txt = sh(cmd, 800)
        if rc != 0:
            ok, ptxt = self.probe(job.cxx)
            if not ok:
                raise CheckError('the header itself does not compile in configuration %s:\n%s' % (job.config, ptxt[-2000:]))
            if rc is None or rc < 0 or 'internal compiler error' in txt or 'Killed' in txt:
                raise CheckError('compiler problem for %s: rc=%s\n%s' % (job.name, rc, txt[-1500:]))
            errs = [l for l in txt.splitlines() if 'error' in l] or txt.splitlines()
            self.add_fail(Fail(job, 'BUILD', job.name, 'compile', (errs or ['?'])[0][:400]), confirmed=True,
                          cmd=' '.join(map(shlex.quote, cmd)))
            return None
        job.exe = out
        return job

    def _parse(self, job, rc, out, args):
        fails = []
        got_stat = False
        for l in out.splitlines():
            if l.startswith('STAT|'):
                got_stat = True
                parts = l.split('|')
                d = {'flavour': parts[1], 'config': job.config}
                for kv in parts[2:]:
                    if '=' in kv:
                        k, v = kv.split('=', 1)
                        d[k] = int(v)
                with self.lock:
                    self.stats.append(d)
            elif l.startswith('SAMPLE|'):
                with self.lock:
                    self.samples.append('%s: %s' % (job.config, l[7:]))
            elif l.startswith('FAIL|'):
                p = l.split('|', 4)
                while len(p) < 5:
                    p.append('')
                fails.append(Fail(job, p[1], p[2], p[3], p[4]))
        return fails, got_stat

    def _exec(self, job, args):
        if FAILFAST and self.fails:
            return
        rc, out = sh([job.exe] + args, job.timeout)
        if rc is None:
            rc, out2 = sh([job.exe] + args, job.timeout * 2)
            if rc is None:
                self.add_fail(Fail(job, 'HANG', job.name, ' '.join(args), 'did not terminate within %d s (twice)' % job.timeout), confirmed=True)
                return
            out = out2
        fails, got = self._parse(job, rc, out, args)
        if rc == 0 and not fails and got:
            return
        if rc == 0 and not fails and not got:
            if 'no such flavour' in out:
                return
            raise CheckError('no statistics from %s %s:\n%s' % (job.name, args, out[-1000:]))
        if rc == 2 and 'no such flavour' in out:
            return
        if not fails:
            if rc == 2:
                raise CheckError('%s %s: %s' % (job.name, args, out[-1000:]))
            fails = [Fail(job, 'CRASH', job.name, ' '.join(args), 'exit status %s; %s' % (rc, out.strip()[-300:]))]
        ok = [f for f in fails if self.accept(f)]
        with self.lock:
            self.ignored += len(fails) - len(ok)
        for f in ok[:8]:
            if FAILFAST and self.fails:
                return
            self._confirm(job, args, f)

    def _confirm(self, job, args, f):
        """A violation is reported only if it is reproduced: first by replaying the recorded history alone, else by the whole run."""
        if not self.accept(f):
            with self.lock:
                self.ignored += 1
            return
        rargs = None
        if f.path.startswith(('fill=', 'bits=')):
            rargs = ['--only=' + f.flavour, '--replay=' + f.path] + [a for a in args if a.startswith(('--cats=', '--fcats='))]
            rc, out = sh([job.exe] + rargs, 120)
            if rc not in (0, 2):
                self.add_fail(f, confirmed=True, rargs=rargs)
                return
        rc, out = sh([job.exe] + args, job.timeout * 2)
        again, _ = self._parse_only(out)
        if rc != 0 and (any(a == f.key() for a in again) or (f.cat == 'CRASH' and rc not in (0, 2))):
            self.add_fail(f, confirmed=True, rargs=args)
            return
        raise CheckError('failure not reproducible: %s %s' % (job.name, f.key()))

    def _parse_only(self, out):
        keys = []
        for l in out.splitlines():
            if l.startswith('FAIL|'):
                p = l.split('|', 4)
                keys.append('|'.join(p[1:4]))
        return keys, None

    def add_fail(self, f, confirmed=False, rargs=None, cmd=None):
        if f.cat != 'BUILD' and not self.accept(f):
            with self.lock:
                self.ignored += 1
            return
        f.rargs = rargs
        f.cmd = cmd
        with self.lock:
            self.fails.append(f)

    def check(self, ok, cat, flavour, path, msg):
        """Direct verdict of a check that is implemented in Python."""
        if not ok:
            f = Fail(None, cat, flavour, path, msg)
            self.add_fail(f, confirmed=True)

    def stat(self, flavour, config, **kw):
        with self.lock:
            self.stats.append(dict(flavour=flavour, config=config, **kw))

    # ---- reporting ----------------------------------------------------------------------------
    def known(self):
        r = {}
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=<(.*)> :: (.*)', l.strip())
                if m and m.group(1) == self.prop:
                    r[m.group(2)] = m.group(3)
        return r

    def finish(self):
        known = self.known()
        new = []
        for f in self.fails:
            if f.key() in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[f.key()]))
            else:
                new.append(f)
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.prop + '_'):
                os.unlink(os.path.join(rdir, old))
        for n, f in enumerate(new[:5]):
            path = os.path.join(rdir, '%s_%d.json' % (self.prop, n))
            d = dict(property=self.prop, category=f.cat, flavour=f.flavour, history=f.path, message=f.msg)
            if f.job is not None:
                d.update(compile=' '.join(map(shlex.quote, f.job.compile_cmd('PROG'))), args=f.rargs, src=f.job.src, config=f.job.config)
            if f.cmd:
                d['compile'] = f.cmd
            json.dump(d, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('   [%s] %s: %s: %s' % (f.cat, f.flavour, f.path, f.msg))
        self.write_evidence(len(new))
        if new:
            return 1
        tot = self.totals()
        print('%s %s: held. %s' % (self.prop, self.tier, ', '.join('%s=%d' % kv for kv in sorted(tot.items()))))
        return 0

    def totals(self):
        tot = {}
        for d in self.stats:
            for k, v in d.items():
                if isinstance(v, int) and k not in ('max_depth', 'capped', 'ops', 'sizeof', 'flag_calls'):
                    tot[k] = tot.get(k, 0) + v
        return tot

    def write_evidence(self, nviol):
        tot = self.totals()
        cov = dict(states=tot.get('states', 0), transitions=tot.get('transitions', 0),
                   traces_validated_against_impl=tot.get('executions', 0),
                   samples=self.samples[:12] or ['(none)'])
        for k, v in tot.items():
            if k not in ('states', 'transitions', 'executions'):
                cov[k] = v
        capped = any(d.get('capped') for d in self.stats)
        cov['exhaustive'] = bool(self.exhaustive and not capped and not nviol)
        cov['max_depth'] = max([d.get('max_depth', 0) for d in self.stats] or [0])
        cov['configurations'] = sorted({d['config'] for d in self.stats})
        cov['instances'] = len(self.stats)
        cov['per_instance'] = [{k: v for k, v in d.items()} for d in self.stats][:400]
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier if self.tier in ('quick', 'thorough') else 'quick',
                  seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w'), indent=1)


def replay_file(path):
    d = json.load(open(path))
    print(json.dumps(d, indent=1))
    if not d.get('src') or d.get('args') is None:
        print('(not a replayable execution: see "compile"/"message")')
        return 0
    tmp = tempfile.mkdtemp(prefix='vh_replay_')
    try:
        exe = os.path.join(tmp, 'prog')
        cmd = [exe if x == 'PROG' else x for x in shlex.split(d['compile'])]
        rc, out = sh(cmd, 600)
        if rc:
            print(out)
            return 1
        rc, out = sh([exe] + d['args'], 600)
        print(out)
        return rc if rc is not None else 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
