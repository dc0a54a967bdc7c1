"""Shared machinery of the checks: scratch builds of /repo, TLC runs, drivers,
violations, known findings and evidence."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLAJAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class MachineryError(Exception):
    pass


def tla(v):
    """Python value -> TLA+ literal."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(tla(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, tla(x)) for k, x in v.items()) + ']'
    raise TypeError(v)


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.quick = self.tier == 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(f'{prop}-{self.seed}')
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'trvchk-{prop}-')
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.actions = {}
        self.viol, self.known_hits = [], {}
        self.known = self._load_known()
        self.tree = None
        self._n = 0
        self.odd = []      # scenarios on which the library crashed or threw out of the driver

    # -- bookkeeping ------------------------------------------------------
    def log(self, *a):
        print(f'[{self.prop} {time.time()-self.t0:6.1f}s]', *a, flush=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def _load_known(self):
        out = {}
        path = os.path.join(VERIF, 'known-findings.txt')
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def violation(self, key, what, data=None):
        """Record one violation; `key` identifies the failing input/site."""
        if key in self.known:
            self.known_hits.setdefault(key, what)
            return
        self.viol.append(dict(key=key, what=what, data=data))
        if len(self.viol) <= 12:
            self.log('violation', key, what)

    def act(self, name, n=1):
        self.actions[name] = self.actions.get(name, 0) + n

    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)

    def path(self, name):
        return os.path.join(self.scratch, name)

    # -- build ------------------------------------------------------------
    def build(self, ext=False, cpp=False, program=False):
        """Copy /repo's working tree to scratch and build what is asked."""
        dev = os.environ.get('VERIF_DEV_TREE')
        if dev:      # development only: an already built tree
            self.tree = dev
            return dev
        if self.tree is None:
            self.tree = self.path('tree')
            os.makedirs(self.tree)
            for name in sorted(os.listdir(REPO)):
                if name in ('.git', 'build', 'docs', 'publication'):
                    continue
                src = os.path.join(REPO, name)
                dst = os.path.join(self.tree, name)
                if os.path.isdir(src) and not os.path.islink(src):
                    shutil.copytree(src, dst, symlinks=True,
                                    ignore=shutil.ignore_patterns('*.so', '__pycache__', 'test_output'))
                else:
                    shutil.copy2(src, dst, follow_symlinks=False)
        jobs = []
        pre = f'. /opt/vp/env.sh; REPO={self.tree}; export CCACHE_BASEDIR={self.tree}; '
        if ext:
            jobs.append(('ext', pre + 'build_ext'))
        if cpp or program:
            jobs.append(('cpp', pre + 'build_cpp' + (' executable' if program else '')))
        errs = []

        def run(name, cmd):
            r = subprocess.run(['bash', '-c', cmd], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                errs.append(f'{name} build failed:\n{r.stdout[-3000:]}')
        # `make library` and setup.py write to different directories under
        # build/, so the two may run side by side.
        ths = [threading.Thread(target=run, args=j) for j in jobs]
        [t.start() for t in ths]
        [t.join() for t in ths]
        if errs:
            raise MachineryError('\n'.join(errs))
        self.log('built', [j[0] for j in jobs])
        return self.tree

    def compile_harness(self, src, san=False):
        """Compile a C++ driver against the scratch tree's headers and library."""
        out = self.path(os.path.basename(src).replace('.cpp', ''))
        flags = os.environ.get('VERIF_CXXFLAGS', '-O1').split()
        cmd = ['g++', '-std=c++17', *flags, '-w', '-fopenmp', '-DTRV_USE_OMP', '-DTRV_USE_FFTWOMP',
               '-I' + os.path.join(self.tree, 'src/triumvirate/include'),
               '-I' + os.path.join(VERIF, 'harness'),
               os.path.join(VERIF, 'harness', src),
               os.path.join(self.tree, 'build/lib/libtrv.a'),
               '-lgsl', '-lgslcblas', '-lfftw3_omp', '-lfftw3', '-lm', '-o', out]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise MachineryError(f'harness {src} does not compile:\n{r.stderr[-3000:]}')
        return out

    def compile_peek(self):
        """Python extension reading the C++ side of a parameter set."""
        out = self.path('peek')
        os.makedirs(out, exist_ok=True)
        inc = self.tree + '/src/triumvirate/include'
        cmd = f'''. /opt/vp/env.sh
cd {out} && cp {VERIF}/harness/trvpeek.pyx . && cython -3 --cplus -I {self.tree}/src trvpeek.pyx -o trvpeek.cpp &&
g++ -std=c++17 -O1 -w -fPIC -shared -fopenmp -DTRV_USE_OMP -DTRV_USE_FFTWOMP -DTRV_EXTCALL $(python3-config --includes 2>/dev/null || python -c "import sysconfig; print('-I' + sysconfig.get_path('include'))") -I{inc} -I{self.tree}/src/triumvirate -I{VERIF}/harness trvpeek.cpp -o trvpeek.so'''
        r = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True)
        if r.returncode:
            raise MachineryError(f'peek module does not compile:\n{r.stdout[-1500:]}{r.stderr[-3000:]}')
        return out

    # -- drivers ----------------------------------------------------------
    def pyenv(self, **kw):
        env = dict(os.environ)
        env['PYTHONPATH'] = os.path.join(self.tree, 'src')
        env['VERIF_TREE'] = self.tree
        env['OMP_NUM_THREADS'] = '2'
        env.update(kw)
        return env

    def drive(self, driver, scenarios, timeout=600, procs=1, env=None):
        """Run scenarios through a Python driver (or compiled harness path);
        returns one result dict per scenario; a crash of the code under test
        becomes {'crash': ...} for that scenario."""
        if procs > 1 and len(scenarios) > procs:
            res = [None] * len(scenarios)
            ths = []

            def part(k):
                rr = self.drive(driver, scenarios[k::procs], timeout, 1, env)
                res[k::procs] = rr
            errs = []

            def guard(k):
                try:
                    part(k)
                except Exception as e:
                    errs.append(e)
            for k in range(procs):
                t = threading.Thread(target=guard, args=(k,))
                t.start()
                ths.append(t)
            [t.join() for t in ths]
            if errs:
                raise errs[0]
            return res
        out, start = [None] * len(scenarios), 0
        while start < len(scenarios):
            self._n += 1
            fin = self.path(f'in-{threading.get_ident()}-{self._n}.ndjson')
            fout = fin.replace('in-', 'out-')
            with open(fin, 'w') as f:
                for s in scenarios[start:]:
                    f.write(json.dumps(s) + '\n')
            if driver.endswith('.py'):
                cmd = [sys.executable, os.path.join(VERIF, 'harness', driver), fin, fout]
            else:
                cmd = [driver, fin, fout]
            wd = fin.replace('.ndjson', '.cwd')
            os.makedirs(wd)
            try:
                r = subprocess.run(cmd, cwd=wd, env=self.pyenv(**(env or {})), timeout=timeout,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                tail, rc = r.stdout[-2000:].decode(errors='replace'), r.returncode
            except subprocess.TimeoutExpired as e:
                tail, rc = (e.stdout or b'')[-2000:].decode(errors='replace'), 'timeout'
            got = []
            if os.path.exists(fout):
                for l in open(fout):
                    try:
                        got.append(json.loads(l))
                    except ValueError:
                        break
            for i, g in enumerate(got):
                if isinstance(g, dict) and 'driver_error' in g:
                    raise MachineryError(f'driver {driver}: {g["driver_error"]}')
                out[start + i] = g
                if isinstance(g, dict) and ('crash' in g or list(g) == ['exception']):
                    self.odd.append((scenarios[start + i], g))
            start += len(got)
            if start < len(scenarios):
                if rc == 0:
                    raise MachineryError(f'driver {driver} stopped early: {tail}')
                if rc == 1 and not got and start == 0 and 'Traceback' in tail:
                    raise MachineryError(f'driver {driver} failed: {tail}')
                out[start] = dict(crash=str(rc), tail=tail[-600:])
                self.odd.append((scenarios[start], out[start]))
                start += 1
            shutil.rmtree(wd, ignore_errors=True)
            os.unlink(fin)
            if os.path.exists(fout):
                os.unlink(fout)
        return out

    # -- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, defs='', simulate=None, depth=None, workers=8,
            timeout=800, extends=None, env=None, expect_ok=True, heap='6g', name=None,
            extra_args=()):
        """Run TLC on spec/<module>.tla with `cfg` text; `defs` are extra
        definitions placed in a generated MC module extending it.
        Returns dict(ok, states, distinct, json=[decoded ToJson prints], out)."""
        self._n += 1
        d = self.path(f'tlc-{self._n}')
        os.makedirs(d)
        for f in os.listdir(os.path.join(VERIF, 'spec')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(VERIF, 'spec', f), d)
        top = 'MC' + module
        ext = module + (', ' + extends if extends else '')
        with open(os.path.join(d, top + '.tla'), 'w') as f:
            f.write(f'---- MODULE {top} ----\nEXTENDS {ext}\n{defs}\n====\n')
        with open(os.path.join(d, top + '.cfg'), 'w') as f:
            f.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss32m', '-cp', TLAJAR, 'tlc2.TLC',
               '-workers', str(workers), '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'),
               '-config', top + '.cfg', *extra_args]
        if simulate:
            cmd += ['-simulate', f'num={simulate}', '-depth', str(depth or 20),
                    '-seed', str(self.seed)]
        cmd.append(top + '.tla')
        e = dict(os.environ)
        e.update(env or {})
        fo = os.path.join(d, 'out.txt')
        try:
            with open(fo, 'w') as f:
                r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT,
                                   timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise MachineryError(f'TLC timed out on {module}')
        out, js = [], []
        for l in open(fo):
            if l.startswith('"') and l.rstrip().endswith('"'):
                try:
                    js.append(json.loads(json.loads(l)))
                    continue
                except ValueError:
                    pass
            out.append(l)
        text = ''.join(out)
        gen = dist = 0
        for m in re.finditer(r'(\d+) states generated, (\d+) distinct states found', text.replace(',', '') if False else text):
            gen, dist = int(m.group(1)), int(m.group(2))
        m = re.search(r'The number of states generated: (\d+)', text)
        if m:
            gen = dist = int(m.group(1))
        self.transitions += gen
        self.states += dist
        ok = rc == 0
        res = dict(ok=ok, rc=rc, states=gen, distinct=dist, json=js, out=text, dir=d)
        if not ok and expect_ok:
            k = text.find('Error:')
            raise MachineryError(f'TLC failed (rc={rc}) on {module}:\n' + text[k:k + 1500] * (k >= 0) + '\n...\n' + text[-2000:])
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(d, ignore_errors=True)
        return res

    def oracle(self, module, inputs, defs='', workers=8, timeout=800, cfgx='', heap='8g', consts='', spec='Spec'):
        """Evaluate the specification on concrete scenarios: the module reads
        them from the file IOEnv.SCEN (every scenario is one initial state),
        runs each to its terminal state under the module's invariants and
        prints ToJson([i |-> scenario number, ...outcome])."""
        n = len(inputs)
        if n == 0:
            return []
        self._n += 1
        fin = self.path(f'or-{self._n}-{module}.json')
        json.dump(inputs, open(fin, 'w'))
        r = self.tlc(module, f'SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n' + consts + cfgx, defs=defs,
                     env=dict(SCEN=fin), workers=workers, timeout=timeout, heap=heap)
        os.unlink(fin)
        out = [None] * n
        for o in r['json']:
            if out[o['i'] - 1] not in (None, o):
                raise MachineryError(f'{module}: scenario {o["i"]} has more than one outcome')
            out[o['i'] - 1] = o
        miss = [i for i, o in enumerate(out) if o is None]
        if miss:
            raise MachineryError(f'{module}: no outcome for scenarios {miss[:5]} of {n}\n' + r['out'][-1500:])
        return out

    # -- end --------------------------------------------------------------
    def finish(self):
        if self.odd and not self.viol:
            s, g = self.odd[0]
            self.violation('crash', f'{len(self.odd)} scenario(s) ended in a crash or an exception: {g}', [s, g])
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples,
                   action_counts=self.actions, **self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=cov, assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 1), violations=len(self.viol),
                  known_findings=sorted(self.known_hits))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.known_hits):
            print(f'KNOWN-FINDING: property={self.prop} {self.known[k]}')
        if self.viol:
            rp = os.path.join(VERIF, 'evidence', f'{self.prop}-replay.json')
            with open(rp, 'w') as f:
                json.dump(self.viol[:50], f, indent=1, default=str)
            print(f'{len(self.viol)} violation(s); first: {self.viol[0]["key"]}: {self.viol[0]["what"]}')
            print(f'VIOLATION property={self.prop} replay={rp}')
            return 1
        self.log('held:', json.dumps(dict(states=self.states, transitions=self.transitions,
                                          traces=self.traces, actions=self.actions)))
        return 0

    def cleanup(self):
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.scratch, ignore_errors=True)


def close(a, b, rtol=1e-9, atol=1e-12):
    if a is None or b is None:
        return a is b
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))
    try:
        if a != a or b != b:
            return a != a and b != b
        return abs(a - b) <= atol + rtol * max(abs(a), abs(b))
    except TypeError:
        return a == b
