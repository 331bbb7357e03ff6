"""Framework shared by all checks: TLC runs, scripts from the model's state graph, drivers built from
/repo's working tree, trace validation, evidence.  Python standard library only."""
import json, os, random, re, shutil, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CE_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRV = os.path.join(VERIF, 'drivers')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
CMJAR = '/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = os.environ.get('CE_CXX', 'clang++')
CXXFLAGS = ['-std=c++17', '-fno-rtti', '-fno-exceptions', '-DDEBUG', '-w', '-Wno-enum-constexpr-conversion']


class CheckError(Exception):
    """the check itself could not give an answer (never a verdict about the code)"""


class Violation(Exception):
    def __init__(self, what, replay=None):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Logs(list):
    """session logs with the scripts that made them"""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.rng = random.Random('%s/%s' % (prop, seed))
        self.t0 = time.time()
        self.out = os.path.join(VERIF, 'out', prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.extra = {}
        self.assumptions = []
        self._java = None

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def sub(self, key):
        """an independent, reproducible random stream"""
        return random.Random('%s/%s/%s' % (self.prop, self.seed, key))

    # ---- java overrides -------------------------------------------------------------------------
    def java(self):
        if self._java is None:
            d = os.path.join(VERIF, 'out', 'java-%d' % os.getpid())
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            src = [os.path.join(VERIF, 'spec', 'java', f) for f in sorted(os.listdir(os.path.join(VERIF, 'spec', 'java'))) if f.endswith('.java')]
            r = subprocess.run(['javac', '-nowarn', '-cp', TLAJAR + ':' + CMJAR, '-d', d] + src, capture_output=True, text=True)
            if r.returncode:
                raise CheckError('javac failed: ' + r.stderr[-2000:])
            self._java = d
        return self._java

    # ---- TLC ------------------------------------------------------------------------------------
    def tlc(self, spec, cfg=None, env=None, workers=1, timeout=840, heap='6g', args=(), tag=None):
        """run TLC; returns (rc, output)"""
        tag = tag or spec
        meta = os.path.join(self.out, 'tlc-' + tag)
        shutil.rmtree(meta, ignore_errors=True)
        os.makedirs(meta)
        cfgp = os.path.join(SPEC, (cfg or spec) + '.cfg') if not (cfg and os.path.isabs(cfg)) else cfg
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-DTLA-Library=' + SPEC,
               '-cp', self.java() + ':' + TLAJAR + ':' + CMJAR, 'tlc2.TLC', '-noGenerateSpecTE',
               '-metadir', meta, '-workers', str(workers), '-config', cfgp] + list(args) + [os.path.join(SPEC, spec + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        outp = os.path.join(self.out, 'tlc-%s.out' % tag)
        with open(outp, 'w') as f:
            try:
                r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=self.out)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                raise CheckError('TLC timeout on ' + spec)
        shutil.rmtree(meta, ignore_errors=True)
        with open(outp, errors='replace') as f:
            text = f.read()
        return rc, text

    @staticmethod
    def counts(text):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
        return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

    def mc(self, spec, cfg=None, workers=1, timeout=840, emit=True, need=()):
        """exhaustive model check of the design; returns its transitions [(from, op, to)].
        A failure here is a defect of the model, not a verdict on the code."""
        rc, text = self.tlc(spec, cfg, workers=workers, timeout=timeout, tag='mc-' + (cfg or spec))
        gen, dist = self.counts(text)
        if rc != 0 or 'Model checking completed. No error has been found.' not in text:
            raise CheckError('model %s failed (rc %d): %s' % (cfg or spec, rc, text[-1500:]))
        self.cov['states'] += dist
        self.cov['transitions'] += gen
        self.extra.setdefault('models', []).append(dict(model=cfg or spec, generated=gen, distinct=dist))
        tr = []
        if emit:
            for line in text.splitlines():
                if line.startswith('"@T '):
                    o = json.loads(json.loads(line)[3:])
                    tr.append((json.dumps(o['f'], sort_keys=True), o['o'], json.dumps(o['t'], sort_keys=True), o.get('i', False)))
            if not tr:
                raise CheckError('model %s emitted no transitions' % (cfg or spec))
            names = {str(t[1][0]) for t in tr}
            miss = set(need) - names
            if miss:
                raise CheckError('model %s never takes %s (vacuous)' % (cfg or spec, sorted(miss)))
        return tr

    def walks(self, tr, maxlen=60, limit=None, init=None):
        """walks from the initial state that together take every transition of the model's graph"""
        adj = {}
        seen = set()
        tgt = set()
        for f, o, t, _ in tr:
            k = (f, json.dumps(o), t)
            if k in seen:
                continue
            seen.add(k)
            adj.setdefault(f, []).append((o, t))
        if init is None:
            init = [f for f, o, t, i in tr if i]
            init = init[0] if init else tr[0][0]
        # BFS tree from init
        par = {init: None}
        todo = [init]
        for f in todo:
            for o, t in adj.get(f, ()):
                if t not in par:
                    par[t] = (f, o)
                    todo.append(t)
        left = {f: list(range(len(a))) for f, a in adj.items() if f in par}
        nleft = sum(map(len, left.values()))
        total = nleft
        res = []
        order = list(todo)
        oi = 0
        while nleft:
            while oi < len(order) and not left.get(order[oi]):
                oi += 1
            if oi >= len(order):
                break
            # start: path to the first state with an untaken transition
            path = []
            c = order[oi]
            while par[c]:
                path.append(par[c][1])
                c = par[c][0]
            path.reverse()
            cur = order[oi]
            while len(path) < maxlen:
                if left.get(cur):
                    k = left[cur].pop()
                    nleft -= 1
                    o, t = adj[cur][k]
                    path.append(o)
                    cur = t
                else:  # hop to a nearby state with something left
                    q = [(cur, [])]
                    vis = {cur}
                    hop = None
                    for st, ops in q:
                        if len(ops) >= 3 or len(vis) > 400:
                            break
                        for o, t in adj.get(st, ()):
                            if t not in vis:
                                vis.add(t)
                                q.append((t, ops + [o]))
                                if left.get(t):
                                    hop = (t, ops + [o])
                                    break
                        if hop:
                            break
                    if not hop:
                        break
                    path += hop[1]
                    cur = hop[0]
            res.append(path)
            if limit and len(res) >= limit:
                break
        self.extra['model_transitions_covered_by_walks'] = self.extra.get('model_transitions_covered_by_walks', 0) + total - nleft
        self.extra['model_transitions'] = self.extra.get('model_transitions', 0) + total
        return res

    # ---- driver ---------------------------------------------------------------------------------
    def build(self, driver, asan=True, defs=(), libs=True, ldflags=(), opt='-O1', name=None, srcs=None, cxxflags=(), exclude=(), fatal=True, std=None, uses=True, twin=None):
        name = name or driver
        if twin is None:
            twin = asan
        if twin:
            # the same sources as a release build: optimised, no sanitizer, locals filled with a pattern
            with ThreadPoolExecutor(1) as ex:
                t = ex.submit(self.build, driver, False, list(defs) + ['-UDEBUG', '-DNDEBUG', '-ftrivial-auto-var-init=pattern'], libs, ldflags, '-O1' if opt == '-O0' else '-O2', name + '.twin', srcs, [x for x in cxxflags if not x.startswith('-fsanitize')], exclude, fatal, std, uses, False)
                exe = self.build(driver, asan, defs, libs, ldflags, opt, name, srcs, cxxflags, exclude, fatal, std, uses, False)
                t.result()
            return exe
        obj = os.path.join(self.out, 'obj-' + name)
        os.makedirs(obj, exist_ok=True)
        flags = list(CXXFLAGS) + [opt, '-g1', '-I', os.path.join(REPO, 'lib', 'h'), '-I', os.path.join(REPO, 'lib'), '-I', DRV] + list(defs) + list(cxxflags)
        if std:
            flags[0] = std
        if asan:
            flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
        files = [os.path.join(DRV, driver + '.cpp')] + [os.path.join(DRV, s) for s in (srcs or [])]
        if libs:
            files += [os.path.join(REPO, 'lib', f) for f in sorted(os.listdir(os.path.join(REPO, 'lib'))) if f.endswith('.cpp') and f not in exclude]
        objs = [os.path.join(obj, '%d-%s.o' % (i, os.path.basename(f))) for i, f in enumerate(files)]

        def one(a):
            return subprocess.run([CXX] + flags + ['-c', a[0], '-o', a[1]], capture_output=True, text=True)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, zip(files, objs)))
        for f, r in zip(files, rs):
            if r.returncode:
                if not fatal:
                    return None
                if uses and f.startswith(DRV) and ': error: ' in r.stderr and all(x.returncode == 0 for g, x in zip(files, rs) if not g.startswith(DRV)) \
                        and one((os.path.join(DRV, 'include_only.cpp'), os.path.join(obj, 'control.o'))).returncode == 0:
                    # the library compiles and so does including it: a use the property is about is no longer accepted
                    raise Violation('a use of the library that must compile does not', dict(kind='compile', driver=f, error=r.stderr[:6000]))
                raise CheckError('cannot compile %s: %s' % (f, r.stderr[:1200]))
        exe = os.path.join(self.out, name)
        r = subprocess.run([CXX] + (['-fsanitize=address'] if asan else []) + [x for x in cxxflags if x.startswith('-fsanitize')] + objs + ['-o', exe, '-pthread'] + list(ldflags), capture_output=True, text=True)
        if r.returncode:
            if uses and libs and not exclude and 'undefined reference to `ce::' in r.stderr:
                # every source of the library compiles and is linked: something its headers declare is not there
                raise Violation('the library declares but does not define what is used', dict(kind='link', driver=driver, error=r.stderr[-6000:]))
            raise CheckError('cannot link %s: %s' % (name, r.stderr[-3000:]))
        shutil.rmtree(obj, ignore_errors=True)
        return exe

    def drive(self, exe, scripts, timeout=450, tag=None, env=None, args=()):
        """scripts: list of (params, ops); each op a list of tokens.  Runs them in the real code, returns the log
        lines (one JSON line per session).  A crash, failed CE_ASSERT or hang is a violation."""
        lines = []
        for p, ops in scripts:
            lines.append('S ' + ' '.join(map(str, p)))
            lines += [' '.join(map(str, o)) for o in ops]
            lines.append('E')
        tag = tag or os.path.basename(exe)
        inp = os.path.join(self.out, tag + '.script')
        with open(inp, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        e = dict(os.environ)
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=78:allocator_may_return_null=1'
        e['MALLOC_PERTURB_'] = '165'
        e.update(env or {})

        def once(exe):
            try:
                r = subprocess.run([exe] + list(args), stdin=open(inp), capture_output=True, timeout=timeout, env=e, cwd=self.out)
                rc, out, err = r.returncode, r.stdout.decode('latin-1'), r.stderr.decode('latin-1')
            except subprocess.TimeoutExpired as x:
                rc, out, err = 'timeout', (x.stdout or b'').decode('latin-1'), (x.stderr or b'').decode('latin-1')
            return rc, [l for l in out.split('\n') if l.startswith('{') and l.endswith('}')], err

        def settled(exe):
            rc, res, err = once(exe)
            if rc == 0 and len(res) == len(scripts):
                return res
            rc2, res2, err2 = once(exe)  # confirm
            if rc2 == 0 and len(res2) == len(scripts):
                log('note: a driver failure did not repeat', rc, err[-500:])
                return res2
            bad = scripts[min(len(res2), len(scripts) - 1)]
            why = ('the code did not terminate' if rc2 in ('timeout', 79, -14, -27) else 'the code crashed or failed an assertion (exit %s)' % rc2)
            if rc2 == 3:
                raise CheckError('driver protocol error: ' + err2[-800:])
            raise Violation('%s in session %d' % (why, len(res2) + 1), dict(kind='crash', build=os.path.basename(exe), exit=rc2, session=len(res2) + 1, params=bad[0], script=bad[1], stderr=err2[-6000:]))
        if not os.path.exists(exe + '.twin'):
            return settled(exe)
        with ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(settled, exe), ex.submit(settled, exe + '.twin')
            a, b = a.result(), b.result()
        # sessions the release build answers differently have to satisfy the specification too
        more = [k for k in range(len(scripts)) if a[k] != b[k]]
        self.extra['release_sessions'] = self.extra.get('release_sessions', 0) + len(b)
        self.extra['release_sessions_differing'] = self.extra.get('release_sessions_differing', 0) + len(more)
        logs = Logs(a + [b[k] for k in more])
        logs.scripts = list(scripts) + [scripts[k] for k in more]
        return logs

    # ---- trace validation -----------------------------------------------------------------------
    def validate(self, spec, logs, scripts=None, cfg=None, workers=8, chunk=None, tag=None, timeout=840, env=None, heap='10g', events=None):
        """every recorded session must be a behaviour of the specification"""
        tag = tag or spec
        if not logs:
            raise CheckError('no sessions to validate')
        tot = 0
        for l in logs:
            tot += len(json.loads(l)['ev']) + 1
        p = os.path.join(self.out, tag + '.ndjson')
        with open(p, 'w') as f:
            f.write('\n'.join(logs) + '\n')
        e = dict(TRACE=p, EXPECT=str(tot))
        e.update(env or {})
        rc, text = self.tlc(spec, cfg, env=e, workers=workers, timeout=timeout, tag='tr-' + tag, heap=heap)
        gen, dist = self.counts(text)
        if rc == 0 and 'No error has been found' in text:
            if dist != tot:
                raise CheckError('%s: %d distinct states, expected %d (trace not fully consumed?)' % (spec, dist, tot))
            self.cov['states'] += dist
            self.cov['transitions'] += gen
            self.cov['traces_validated_against_impl'] += len(logs)
            self.extra['events_validated'] = self.extra.get('events_validated', 0) + tot - len(logs)
            self.sample(logs)
            return
        if 'Deadlock reached' in text or 'Invariant' in text or 'is violated' in text:
            ms = re.findall(r'^/?\\?\s*(?:/\\ )?s = (\d+)\s*$', text, re.M)
            mi = re.findall(r'^/?\\?\s*(?:/\\ )?i = (\d+)\s*$', text, re.M)
            if not ms or not mi:
                raise CheckError('cannot parse rejection of %s: %s' % (spec, text[-1500:]))
            s, i = int(ms[-1]), int(mi[-1])
            sess = json.loads(logs[s - 1])
            ev = sess['ev']
            at = ev[i - 1] if i - 1 < len(ev) else None
            rep = dict(kind='trace', spec=spec, session=s, event=i, params=sess.get('p'), rejected=at, before=ev[max(0, i - 6):i - 1])
            scripts = getattr(logs, 'scripts', scripts)
            if scripts and s <= len(scripts):
                rep['script'] = scripts[s - 1]
            rep['trace_file'] = logs[s - 1] if len(logs[s - 1]) < 20000 else None
            k = text.rfind('State ')
            rep['model_state'] = text[k:k + 2500]
            raise Violation('recorded execution is not a behaviour of %s: session %d, event %d: %s' % (spec, s, i, json.dumps(at)[:400]), rep)
        raise CheckError('TLC failed on %s (rc %d): %s' % (spec, rc, (text[:0] + text)[-2500:]))

    def sample(self, logs):
        sm = self.cov['samples']
        for l in (logs[0], logs[len(logs) // 2]):
            if len(sm) < 8:
                o = json.loads(l)
                o['ev'] = o['ev'][:4]
                t = json.dumps(o)
                sm.append(o if len(t) < 1500 else t[:1500])

    # ---- evidence -------------------------------------------------------------------------------
    def evidence(self, violations=0):
        cov = dict(self.cov)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        if self._java:
            shutil.rmtree(self._java, ignore_errors=True)
