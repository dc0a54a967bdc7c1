"""Window convolution through triumvirate.winconv."""
import contextlib, io, multiprocessing as mp, os, queue, random, time, traceback, warnings
import numpy as np
from triumvirate import winconv as W
from triumvirate._mpitools import allocate_tasks, distribute_tasks
from d_formulae import pole, coef
from d_hankel import rat
from dlib import serve

P2 = np.polynomial.polynomial


class Keyer:
    """Multipole keys in many notations."""
    def __init__(self, seed):
        self.rng = random.Random(seed)

    def __call__(self, l):
        hows = ['commas', 'spaces', 'pole', 'twice', 'tuple', 'strings'] + (['digits'] if max(l) < 10 else []) + (['int'] if len(l) == 1 else [])
        if len(l) == 1:
            hows = ['digits', 'int', 'tuple', 'pole']
        return pole(l, self.rng.choice(hows))


def arr(c):
    return np.array([[rat(x) for x in r] for r in c])


def formulae(s, key):
    if s.get('named'):
        return s['named']
    d = {key(e['l']): [(key(t['q']), 'ic' if t['z'] == [-1] else key(t['z']), coef(t['c'], key.rng.choice(['frac', 'int', 'str', 'sympy']))) for t in e['terms']] for e in s['entries']}
    return W.WinConvFormulae(d) if s['asobj'] else d


def evals(c, x, dim):
    if dim == 1:
        return P2.polyval(x, arr(c)[0])
    return P2.polygrid2d(x, x, arr(c))


def get(a, l):
    return next(x for x in a if x['l'] == l)


def model(ms, grids, dim, key, perm):
    out = {}
    for x in sorted(ms, key=lambda x: perm.random()):
        g = grids[tuple(x['l'])]
        v = evals(x['c'], g, 1 if dim == 1 else 2)
        out[key(x['l'])] = v if dim != 3 else np.diag(v).copy()
    return out


def caught(ws):
    t = [str(w.message) for w in ws if issubclass(w.category, W.ConvolutionRangeWarning)]
    return dict(win=sorted({x.split('Multipole: (')[1].split(')')[0] for x in t if 'window function' in x.split('Multipole')[0]}),
                cf=sorted({x.split('Multipole: (')[1].split(')')[0] for x in t if 'input CF' in x.split('Multipole')[0]}))


def conf(s):
    key, perm = Keyer(s['seed']), random.Random(s['seed'])
    dim = s['dim']
    qg = {tuple(x['l']): np.array([rat(r) for r in x['g']]) for x in s['q']}
    zg = {tuple(x['l']): np.array([rat(r) for r in x['g']]) for x in s['z']}
    po = {tuple(x['l']): np.array([rat(r) for r in x['r']]) for x in s['pts']}
    win = {key(l): evals(get(s['q'], l)['c'], qg[tuple(l)], 1 if dim == 1 else 2) for l in s['qs']}
    ws = {key(l): qg[tuple(l)] for l in s['qr']} if s['qform'] == 'dict' else qg[tuple(s['qr'][0])]
    rin = {key(l): zg[tuple(l)] for l in s['zk']} if s['rin'] == 'dict' else next(iter(zg.values()))
    rout = None if s['rout'] == 'none' else next(iter(po.values())) if s['rout'] == 'one' else {key(list(l)): r for l, r in po.items()}
    f = formulae(s, key)
    cls = W.TwoPCFWinConv if dim == 1 else W.ThreePCFWinConv
    kw = {} if s['spline'] == 3 else dict(spline=s['spline'])
    if rout is not None:
        kw['r_out'] = rout
    keep = {id(v): v.copy() for d in (win, ws if isinstance(ws, dict) else {}, rin if isinstance(rin, dict) else {}) for v in d.values()}
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter('always')
        try:
            w = cls(f, ws, win, rin, **kw)
        except (ValueError, KeyError) as e:
            return dict(ok=False, err=f'{type(e).__name__}: {e}'[:200])
    out = dict(ok=True, h=[], **caught(rec))
    cur = [dict(x, c=[[rat(v) for v in r] for r in x['c']]) for x in s['m']]
    back = lambda a: [[[v, 1] for v in r] for r in a]
    for op in s['ops']:
        if op['op'] == 'scale':
            for x in cur:
                x['c'] = [[v*op['by'] for v in r] for r in x['c']]
            continue
        if op['op'] == 'add':
            for x in cur:
                d = get(op['m'], x['l'])['c']
                x['c'] = [[v + rat(u) for v, u in zip(a, b)] for a, b in zip(x['c'], d)]
            continue
        mod = model([dict(x, c=back(x['c'])) for x in cur], zg, dim, key, perm)
        before = {k: v.copy() for k, v in mod.items()}
        ic = None if not op['ic'] else rat(op['ic'])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                if dim == 1:
                    r = w.convolve(mod)
                else:
                    kw = {} if ic is None and op['omit'] else dict(ic=ic)
                    r = (w.convolve if dim == 2 else w.convolve_diag)(mod, **kw)
        except ValueError as e:
            out['h'].append(dict(ok=False, err=str(e)[:200]))
            continue
        ls = list(r)
        out['h'].append(dict(ok=True, l=[list(l.index) for l in ls], v=[np.atleast_2d(r[l]).tolist() for l in ls], real=all(np.isrealobj(v) for v in r.values()),
                             pure=all((mod[k] == before[k]).all() for k in mod), pts=all(np.array_equal(w.r_out[l], po[l.index]) for l in ls)))
    out['kept'] = all((v == keep[id(v)]).all() for d in (win, ws if isinstance(ws, dict) else {}, rin if isinstance(rin, dict) else {}) for v in d.values())
    return out


def family(l, dim, c, w, pts):
    c = np.array([[rat(x) for x in r] for r in c])
    ell = l[:1] if dim == 1 else l[:2]
    pw = [np.array([(w*p)**(e + 2*j) for j in range(n)])*np.exp(-(w*p)**2/2) for e, n, p in zip(ell, c.shape[-dim:], pts)]
    return c[0] @ pw[0] if dim == 1 else pw[0].T @ c @ pw[1]


def harm(s):
    key = Keyer(s['seed'])
    dim, w = s['dim'], rat(s['w'])
    lo, hi, n = s['grid']
    k = np.geomspace(lo, hi, n)/w
    if s['warp']:
        k[1:-1] *= 1 + .002*np.sin(1. + np.arange(1, n - 1)*2.4)
    qgrid = np.geomspace(1e-1/hi*w, 1e1/lo*w, 60)
    win = {key(x['l']): evals(x['c'], qgrid, dim) for x in s['q']}
    zs = [x['l'] for x in s['m']]
    kin = k if s['kform'] == 'one' else {key(l): k for l in zs}
    kw = dict(transform_kwargs=s['kw'])
    rc = np.geomspace((2 if dim == 1 else 1)/hi*w, 7.5*w, s['nr']) if s['rc'] else None
    if s['rc']:
        kw['r_common'] = rc
    ko = np.geomspace(.2/w, 4/w, 9) if s['ko'] else None
    if s['ko']:
        kw['k_out'] = ko
    cls = W.PowspecWinConv if dim == 1 else W.BispecWinConv
    kwarg0 = dict(s['kw'])
    t = quiet(lambda: cls(formulae(s, key), {key(x['l']): qgrid for x in s['q']} if s['qform'] == 'dict' else qgrid, win, kin, **kw))
    cur = {tuple(x['l']): np.array([[rat(v) for v in r] for r in x['c']]) for x in s['m']}
    ph = {tuple(x['l']): 1j**x['s'] for x in s['m']}
    out = []
    for op in s['ops']:
        if op['op'] == 'scale':
            cur = {l: c*op['by'] for l, c in cur.items()}
            continue
        if op['op'] == 'add':
            cur = {l: c + arr(get(op['m'], list(l))['c']) for l, c in cur.items()}
            continue
        mod = {}
        for l in sorted(cur, key=lambda l: key.rng.random()):
            v = family(list(l), dim, [[[x, 1] for x in r] for r in cur[l]], w, [k]*dim)*ph[l]
            mod[key(list(l))] = v.real.copy() if ph[l].imag == 0 and key.rng.random() < .8 else v
        if s['more'] and s['kform'] == 'one':
            # a multipole that is not asked for
            x = key([7] if dim == 1 else [3, 3, 0])
            if W.Multipole(x).index not in [W.Multipole(y).index for y in mod]:
                mod[x] = np.full((n,)*dim, 5.)
        b = {x: v.copy() for x, v in mod.items()}
        kws = {} if dim == 1 else dict(ic=0.)
        more = op['more']
        r = t.convolve(mod, **kws, **({('ret_xi' if dim == 1 else 'ret_zeta'): True} if more else {}))
        r, xi = r if more else (r, None)
        errs = []
        kk = np.asarray(t.k_out)
        sel = (kk*w > .15) & (kk*w < 5)
        for l, v in r.items():
            e = get(op['exp'], list(l.index))
            ref = family(e['l'], dim, e['c'], w, [kk[sel]]*dim)*1j**e['s']
            v = np.asarray(v)
            v = v[sel] if dim == 1 else v[np.ix_(sel, sel)]
            # in units of the largest terms of the result
            big = max(float(np.max(np.abs(family(e['l'], dim, [[[abs(x[0]), x[1]] for x in r] for r in c], w, [np.linspace(.2, 4, 20)/w]*dim)))) for c in e['parts'])
            big = big or max(1., float(np.max(np.abs(v))))*1e3
            errs.append([e['l'], float(np.max(np.abs(v - ref))/big) if v.shape == ref.shape else 9., float(np.max(np.abs(ref)))])
        out.append(dict(err=errs, pure=all((mod[x] == b[x]).all() for x in mod), n=int(sel.sum()), ko=bool(ko is None or np.array_equal(kk, ko)),
                        xi=xi is None or all(np.asarray(xi[l]).shape == (len(t.r_common[l]),)*dim for l in r)))
    return dict(h=out, kw=kwarg0 == s['kw'])


def ic(s):
    key = Keyer(s['seed'])
    g = lambda x: np.array([rat(r) for r in x['g']])
    win = {key(x['l']): evals(x['c'], g(x), 2) for x in s['q']}
    zeta = {key(x['l']): evals(x['c'], g(x), 2) for x in s['m']}
    ws = {key(l): g(get(s['q'], l)) for l in s['qr']} if s['qform'] == 'dict' else g(s['q'][0])
    r = {key(l): g(get(s['m'], l)) for l in s['zr']} if s['zform'] == 'dict' else g(s['m'][0])
    kw = {}
    if s['common']:
        a = np.linspace(rat(s['common'][0]), rat(s['common'][1]), s['nc'])
        kw['r_common'] = a
    if s['approx']:
        kw['approx'] = True
    if s['cplx']:
        zeta = {k: v + 0j for k, v in zeta.items()}
    try:
        return dict(ok=True, v=float(W.calc_threept_ic(ws, win, r, zeta, **kw)))
    except (ValueError, KeyError) as e:
        return dict(ok=False, err=str(e)[:200])


# -- matrix generation, on several processes -------------------------------
class Comm:
    """Collective communication between forked processes."""
    def __init__(self, rank, size, boxes, bar, limit):
        self.rank, self.size, self.boxes, self.bar, self.limit = rank, size, boxes, bar, limit
        self.count, self.kept = 0, {}

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    def Barrier(self):
        self.bar.wait(self.limit)
    barrier = Barrier

    def _tag(self):
        self.count += 1
        return self.count

    def _recv(self, tag, src):
        while (tag, src) not in self.kept:
            t, s, o = self.boxes[self.rank].get(timeout=self.limit)
            self.kept[t, s] = o
        return self.kept.pop((tag, src))

    def bcast(self, obj, root=0):
        t = self._tag()
        if self.rank == root:
            for r in range(self.size):
                if r != root:
                    self.boxes[r].put((t, root, obj))
            return obj
        return self._recv(t, root)

    def Bcast(self, buf, root=0):
        buf[...] = self.bcast(buf, root)

    def gather(self, obj, root=0):
        t = self._tag()
        if self.rank != root:
            self.boxes[root].put((t, self.rank, obj))
            return None
        return [obj if r == root else self._recv(t, r) for r in range(self.size)]

    def allgather(self, obj):
        return self.bcast(self.gather(obj, 0), 0)

    def scatter(self, objs, root=0):
        return self.bcast(objs, root)[self.rank]

    def Gatherv(self, sendbuf, recvbuf, root=0):
        a = np.asarray(sendbuf if not isinstance(sendbuf, (list, tuple)) else sendbuf[0])
        parts = self.gather((a.dtype.str, a.tobytes()), root)
        if self.rank != root:
            return
        buf, sizes, offs = recvbuf if len(recvbuf) == 3 else (recvbuf[0], *recvbuf[1])
        raw = buf.reshape(-1).view(np.uint8)
        w = buf.dtype.itemsize
        for (dt, b), n, o in zip(parts, sizes, offs):
            if np.dtype(dt).itemsize != w or len(b) != n*w:
                raise ValueError(f'message of {len(b)} bytes of {dt} into {n} of {buf.dtype}')
            raw[o*w:(o + n)*w] = np.frombuffer(b, np.uint8)

    def Gather(self, sendbuf, recvbuf, root=0):
        n = np.asarray(sendbuf).size
        self.Gatherv(sendbuf, (recvbuf, ([n]*self.size, [n*r for r in range(self.size)])), root)


def setup(s, comm=None):
    key = Keyer(s['seed'])
    rng = np.random.default_rng(s['seed'])
    kin = {tuple(x['l']): np.geomspace(x['lo'], x['hi'], x['n']) for x in s['size']}
    if s.get('warp'):
        kin = {l: k + (k[1] - k[0])*.3*np.sin(np.pi*np.arange(len(k))/(len(k) - 1)) for l, k in kin.items()}
    qgrid = np.geomspace(1e-3, 1e3, 9)
    win = {key(q): rng.standard_normal((9, 9)) + 2 for q in s['qs']}
    kw = dict(transform_kwargs=s['kw'], k_out=np.geomspace(.3, 2, s['nk'])) if s['ko'] else dict(transform_kwargs=s['kw'])
    if s['rc']:
        kw['r_common'] = np.geomspace(.2, 5, s['nr'])
    if comm is not None:
        kw.update(comm=comm, comm_root=s['root'])
    kk = {key(list(l)): v for l, v in kin.items()} if s['kform'] == 'dict' else next(iter(kin.values()))
    return W.BispecWinConv(formulae(s, key), qgrid, win, kk, **kw)


def quiet(fn):
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fn()


def position(s, B):
    """Column (from 0) of a unit model; None if it is not one."""
    at = []
    base = 0
    poles = {tuple(k.index if hasattr(k, 'index') and not isinstance(k, (tuple, str)) else W.Multipole(k).index): v for k, v in B.items()}
    for x in s['zorder']:
        v = np.asarray(poles[tuple(x)]).ravel()
        at += [(base + j, v[j]) for j in np.flatnonzero(v)]
        base += v.size
    return int(at[0][0]) if len(at) == 1 and at[0][1] in (1, 1j) else None


def rank_run(s, rank, boxes, bar, res, limit):
    try:
        t = setup(s, Comm(rank, s['np'], boxes, bar, limit))
        log, conv = [], t.convolve
        rng = random.Random(s['seed']*31 + rank)

        def spy(B, *a, **k):
            log.append(position(s, B))
            if rng.random() < .05:
                time.sleep(rng.random()*.01)
            return conv(B, *a, **k)
        t.convolve = spy
        m = quiet(lambda: t.gen_winconv_mat(ic=s['ic'], concat=s['concat'], diag=s['diag']))
        if isinstance(m, dict):
            m = [(list(l.index), v) for l, v in m.items()]
        res.put((rank, log, m, None))
    except BaseException as e:
        bar.abort()
        res.put((rank, None, None, f'{type(e).__name__}: {e} ' + traceback.format_exc()[-400:]))


def unit(z):
    return 1j if (z[0] + z[1]) % 2 else 1.


def place(s):
    t = quiet(lambda: setup(s))
    out = dict()
    gen = lambda: quiet(lambda: t.gen_winconv_mat(ic=s['ic'], concat=s['concat'], diag=s['diag']))
    m = gen()
    ko = np.asarray(t.k_out)
    ls = t._formulae.multipoles
    pick = (lambda m, l: m) if s['concat'] else (lambda m, l: m[W.Multipole(tuple(l))])
    out['nk'] = len(ko)
    out['poles'] = None if s['concat'] else [list(l.index) for l in m]
    out['shape'] = list(m.shape) if s['concat'] else list(pick(m, s['entries'][0]['l']).shape)
    ns = {tuple(x['l']): x['n'] for x in s['size']}
    rng = np.random.default_rng(s['seed'] + 1)
    icv = None if s['ic'] else 0.
    conv = lambda B: quiet(lambda: t.convolve({k: v.copy() for k, v in B.items()}, ic=icv))
    # entries of the matrix
    worst, where = 0., None
    scale = max(np.max(np.abs(x)) for x in (m.values() if isinstance(m, dict) else [m]))
    cache = {}
    for a, c, r in zip(s['ask'], s['exp']['col'], s['exp']['row']):
        kz = (tuple(a['z']), a['a'], a['b'])
        if kz not in cache:
            B = {z: np.zeros((n, n)) for z, n in ns.items()}
            # a multipole with an odd sum of degrees is imaginary
            B[kz[0]] = B[kz[0]]*unit(kz[0])
            B[kz[0]][a['a'] - 1, a['b'] - 1] = unit(kz[0])
            cache[kz] = {l: v/unit(kz[0]) for l, v in conv(B).items()}
        v = cache[kz][W.Multipole(tuple(a['l']))][a['x'] - 1, (a['x'] if s['diag'] else a['y']) - 1]
        try:
            g = pick(m, a['l'])[r - 1, c - 1]
        except IndexError:
            return dict(out, err=9., where=[a, 'index'])
        e = abs(g - v)/scale
        if not e <= worst:
            worst, where = float(e), [a, str(g), str(v)]
    out['err'], out['where'] = worst, where
    # the matrix applied to a model vector
    worst = 0.
    for _ in range(2):
        B = {z: rng.standard_normal((n, n))*unit(z) for z, n in ns.items()}
        v = np.concatenate([B[tuple(z)].ravel() for z in s['zorder']])
        r = conv(B)
        ref = [np.diag(r[l]) if s['diag'] else r[l].ravel() for l in ls]
        got = m @ v if s['concat'] else np.concatenate([m[l] @ v for l in ls])
        ref = np.concatenate(ref)
        e = np.max(np.abs(got - ref))/max(np.max(np.abs(ref)), scale) if got.shape == ref.shape else 9.
        worst = max(worst, float(e)) if e == e else 9.
    out['apply'] = worst
    m2 = gen()
    eq = lambda a, b, tol: all(a[l].shape == b[l].shape and np.max(np.abs(a[l] - b[l])) <= tol*scale for l in a) if isinstance(a, dict) else a.shape == b.shape and np.max(np.abs(a - b)) <= tol*scale
    out['again'] = bool(eq(m, m2, 0))
    # several processes
    ctx = mp.get_context('fork')
    P = s['np']
    boxes, bar, res = [ctx.Queue() for _ in range(P)], ctx.Barrier(P), ctx.Queue()
    ps = [ctx.Process(target=rank_run, args=(s, r, boxes, bar, res, 60), daemon=True) for r in range(P)]
    env = os.environ.get('OMP_NUM_THREADS')
    for p in ps:
        p.start()
    ans = {}
    try:
        for _ in range(P):
            a = res.get(timeout=200)
            ans[a[0]] = a
            if a[3]:
                break
    except queue.Empty:
        pass
    for p in ps:
        p.terminate() if len(ans) < P or any(a[3] for a in ans.values()) else p.join(20)
    bad = [a[3] for a in ans.values() if a[3]]
    if bad or len(ans) < P:
        return dict(out, par=f'processes failed: {bad[:1] or "no answer"}')
    out['log'] = [[None if c is None else c + 1 for c in ans[r][1]] for r in range(P)]
    out['others'] = [r for r in range(P) if r != s['root'] and ans[r][2] is not None]
    pm = ans[s['root']][2]
    if isinstance(pm, list):
        pm = {W.Multipole(tuple(l)): v for l, v in pm}
    out['par'] = '' if type(pm) is type(m) and eq(m, pm, 1e-11) else 'matrix differs from that of one process'
    return out


def refuse(s):
    """Arguments that are refused."""
    w = s['what']
    k = np.geomspace(.01, 1, 8)
    lin = np.linspace(.01, 1, 8)
    two, three = {'0': [('0', '0', 1)]}, {'000': [('000', '000', 1)]}
    Q1, Q3 = {'0': np.ones(8)}, {'000': np.ones((8, 8))}
    try:
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter('always')
            if w == 'name':
                W.TwoPCFWinConv('nobody', k, Q1, k)
            elif w == 'linear power':
                W.PowspecWinConv(two, k, Q1, lin)
            elif w == 'linear power, one of two':
                W.PowspecWinConv({'0': [('0', '0', 1), ('0', '2', 1)]}, k, Q1, {'0': k, '2': lin})
            elif w == 'linear common power':
                W.PowspecWinConv(two, k, Q1, k, r_common=lin)
            elif w == 'linear common bispectrum':
                W.BispecWinConv(three, k, Q3, k, r_common=lin)
            elif w == 'missing power':
                W.PowspecWinConv(two, k, Q1, {'2': k})
            elif w == 'missing bispectrum':
                W.BispecWinConv(three, k, Q3, {'110': k})
            elif w == 'shape':
                W.ThreePCFWinConv(three, k, Q3, k).convolve({'000': np.ones((8, 5))})
            elif w == 'shape diag':
                W.ThreePCFWinConv(three, k, Q3, k).convolve_diag({'000': np.ones(5)})
            elif w == 'shape 2':
                W.TwoPCFWinConv(two, k, Q1, k).convolve({'0': np.ones(5)})
            elif w == 'tasks':
                allocate_tasks(*s['args'])
    except (ValueError, TypeError, IndexError, KeyError) as e:
        return dict(ok=False, err=type(e).__name__)
    return dict(ok=True)


def tasks(s):
    n, p = s['n'], s['np']
    a = allocate_tasks(np.int64(n) if s['np64'] else n, p)
    b = distribute_tasks(task_total=n, proc_total=p) if s['form'] == 'total' else distribute_tasks(ntasks=a)
    return dict(log=[[c + 1 for c in range(n)[x]] for x in b], a=[int(x) for x in a])


if __name__ == '__main__':
    serve(lambda s: globals()[s['kind']](s))
