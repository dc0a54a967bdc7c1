"""Scenarios and exact expectations of the three-point statistics (ThreePt.tla)."""
import cmath, itertools, math
from fractions import Fraction as F
from functools import lru_cache
from geom import *
from stats2 import SCHEME, points, win2

ALLOWED = [l for l in itertools.product(range(5), repeat=3)
           if abs(l[0] - l[1]) <= l[2] <= l[0] + l[1] and sum(l) % 2 == 0 and sum(l) <= 8]


def racah(l, m):
    a, b, c = l
    lo, hi = max(0, b - c - m[0], a - c + m[1]), min(a + b - c, a - m[0], b + m[1])
    f = math.factorial
    return (-1)**((a - b - m[2]) % 2)*sum(F((-1)**t, f(t)*f(c - b + t + m[0])*f(c - a + t - m[1])*f(a + b - c - t)*f(a - t - m[0])*f(b - t + m[1]))
                                    for t in range(lo, hi + 1))


@lru_cache(None)
def terms(l):
    """Denominator and coefficients of the specification's weight (for bounding its integers only)."""
    a, b, c = l
    f = math.factorial
    tri = F(f(a + b - c)*f(a - b + c)*f(b + c - a), f(a + b + c + 1))
    front = (2*a + 1)*(2*b + 1)*(2*c + 1)*tri*racah(l, (0, 0, 0))*f(a)*f(b)*f(c)/2**(a + b + c)
    out = {}
    for m1 in range(-a, a + 1):
        for m2 in range(-b, b + 1):
            m3 = -m1 - m2
            if abs(m3) <= c:
                out[m1, m2, m3] = front*racah(l, (m1, m2, m3))*f(a - abs(m1))*f(b - abs(m2))*f(c - abs(m3))
    den = math.lcm(*(x.denominator for x in out.values()))
    return den, {k: int(x*den) for k, x in out.items() if x}


@lru_cache(None)
def solid(l, m, v):
    k = abs(m)
    r2 = sum(x*x for x in v)
    P = 0
    for i in range(l//2 + 1):
        e = l - 2*i - k
        if e >= 0:
            P += (-1)**i*math.comb(l, i)*math.comb(2*l - 2*i, l)*math.perm(l - 2*i, k)*v[2]**e*r2**i
    z = complex(v[0], v[1])**k*(-1)**k*P
    if m < 0:
        z = (-1)**k*z.conjugate()
    return z.conjugate()


def weight(l, u, v, n):
    den, t = terms(l)
    z = sum(c*solid(l[0], m[0], u)*solid(l[1], m[1], v)*solid(l[2], m[2], n) for m, c in t.items())
    assert abs(z.imag) <= 1e-6*max(1, abs(z.real)), (l, u, v, n, z)
    return round(z.real)


def dual(n, c):
    M = math.lcm(*(x*y for x, y in zip(n, c)))
    return M, [M//(x*y) for x, y in zip(n, c)]


def lab(z, n):
    return tuple(signed1(i, m) for i, m in zip(z, n))


def bound(s):
    """Upper estimate of the integers the specification will meet."""
    l = tuple(s['l'])
    v = [lab(z, s['n']) for z in cells(s['n'])]
    b = [tuple(x*y for x, y in zip(z, s['c'])) for z in v]
    o = [tuple(x*y for x, y in zip(z, s['d'])) for z in v]
    lo, hi = F(*s['e'][0])**2, F(*s['e'][-1])**2
    b = [x for x in b if lo <= sum(y*y for y in x) < hi]
    ks, rs = (b, o) if s['space'] == 'fourier' else (o, b)
    los = {(0, 0, 1)} if s['kind'] == 'sim' else {tuple(p['l']) for p in s['cat'] + s['ran']}
    g, top = terms(l)[0], 1
    for n in los:
        for x in ks:
            for y in ks:
                w = weight(l, x, y, n)
                g, top = math.gcd(g, w), max(top, abs(w))
        for x in rs:
            w = weight(l, x, x, n)
            g, top = math.gcd(g, w), max(top, abs(w))
    den = math.prod({1: lambda x: 1, 2: lambda x: x, 3: lambda x: 8*x*x, 4: lambda x: 6*x**3}[s['p']](x) if m > 1 else 1
                    for x, m in zip(s['q'], s['n']))
    if s['kind'] == 'survey':
        sc, sr = sum(x['ws'] for x in s['cat']), sum(x['ws'] for x in s['ran'])
        k = math.gcd(sc, sr)
        W = sum(x['ws']*x['wc'] for x in s['cat'])*sr//k + sum(x['ws']*x['wc'] for x in s['ran'])*sc//k
    elif s['kind'] == 'sim':
        W = len(s['cat'])
    else:
        W = sum(x['ws']*x['wc'] for x in s['ran'])
    raw = max(terms(l)[0], top)*1.0*max(abs(x) for x in terms(l)[1].values())
    qm = max((sum(a*a for a in x) for x in rs), default=0)
    return dict(trip=(den*W)**3*top//g*8*min(len(ks), 12), w3=W**3*top//g*8*len(rs), x=den**2*W**3*top//g*8*math.prod(s['n']), tab=top*8, raw=raw,
                collapse=max([1] + [abs(weight(l, x, x, n))//g*(2*math.sqrt(sum(a*a for a in n)*qm))**l[2]*qm**((l[0] + l[1] - l[2])//2 if l[0] + l[1] > l[2] else 0)
                             for n in los for x in rs]))


def edges(rng, n, c, fine, cap, kmin=2, kmax=3):
    maxsq = sum(((m//2)*x)**2 for m, x in zip(n, c))
    top = math.isqrt(maxsq) + 1
    hi = 8*top + 4 if cap is None else math.floor(8*cap) - 1
    for _ in range(1000):
        k = rng.randint(kmin, kmax)
        if hi < k + 1:
            raise RuntimeError
        e = sorted(rng.sample(range(0, hi + 1), k + 1))
        if rng.random() < .4:
            e[0] = 0
        if rng.random() < .5:
            e[-1] = hi
        if len(set(e)) == k + 1 and all(abs(x/8 - math.sqrt(q)) > fine for x in e if x for q in range(maxsq + 1)):
            return [[x//math.gcd(x, 8), 8//math.gcd(x, 8)] for x in e]
    raise RuntimeError


def scenario(rng, j, space, heavy=False):
    while True:
        try:
            return scenario1(rng, j, space, heavy)
        except RuntimeError:
            pass


def scenario1(rng, j, space, heavy):
    kind = ['survey', 'survey', 'sim', 'survey' if space == 'fourier' else 'window'][j % 4]
    # corrected to the distance of the third field from the origin; with generic lines of sight the field is complex
    wide = kind == 'window' and rng.random() < .6
    bent = wide and rng.random() < .7
    p = 1 if bent else rng.choice([1, 1, 1, 2, 2, 3])
    q = [4, 4, 4] if p == 1 else [2, 2, 2] if p == 2 else rng.choice([[1, 1, 1], [2, 1, 1]])
    if p == 3:
        rng.shuffle(q)
    l = rng.choice([x for x in ALLOWED if sum(x) <= (4 if p > 1 else 8)])
    if rng.random() < .3:
        l = rng.choice([(0, 0, 0), (1, 1, 0), (2, 0, 2), (0, 2, 2), (1, 1, 2)])
    if bent:
        l = rng.choice([x for x in ALLOWED if 1 <= x[2] <= 3 and sum(x) <= 6])
    # a mode at the Nyquist label of one axis has no definite direction once another component is non-zero (or the degree is odd):
    # anisotropic weights are compared where every mode that is used has one
    aniso, odd = l[0] + l[1] > 0, any(x % 2 for x in l)
    pool = [1, 2, 3, 4] if p > 1 else [1, 2, 3, 4, 6]
    if aniso and space == 'config' or odd and l[2] % 2:
        pool = [1, 3] if odd or rng.random() < .8 else [1, 2]
    if bent:
        pool = [1, 3, 3]
    for _ in range(200):
        n = [rng.choice(pool) for _ in range(3)]
        if 4 < math.prod(n) <= (9 if wide else 48 if space == 'fourier' else 27) and sum(m > 1 for m in n) <= (3 if p == 1 or q == [1, 1, 1] else 2):
            break
    else:
        raise RuntimeError
    c = rng.choice([[1, 1, 1], [1, 1, 1], [1, 2, 1], [2, 1, 1], [1, 1, 2], [1, 2, 3], [2, 1, 3]])
    M, d = dual(n, c)
    if max(d) > 6:
        raise RuntimeError
    norm = 1 if kind == 'sim' or l[2] > 3 or p == 3 else 3 if bent else rng.choice([1, 1, 3])
    part = lambda: dict(l=los(rng, norm), ws=1 if p > 1 else rng.choice([1, 1, 2]), wc=1 if p > 1 else rng.choice([1, 1, 2]), nz=rng.choice([1, 2, 3]))
    align = dict(survey=rng.choice(['centre', 'pad']), window='centre', sim='wrap')[kind]
    scale, factor, pad = 'box', 0., [0, 0, 0]
    if align == 'pad':
        ch = [('grid', f) for f in (0., 1., .5) if f < min(n) and all((f*x) % 1 == 0 for x in q)]
        ch += [('box', f) for f in (0., .25, .125, .5) if all((f*m*x) % 1 == 0 for m, x in zip(n, q))]
        scale, factor = rng.choice(ch)
        pad = [int(factor*x) if scale == 'grid' else int(factor*m*x) for m, x in zip(n, q)]
    nc, nr = rng.choice([(1, 2), (2, 2), (2, 2), (2, 3), (1, 3)])
    if kind == 'window':
        nc, nr = 0, rng.choice([2, 3])
    if kind == 'sim':
        nc, nr = rng.choice([1, 2, 3]), 0
    cat, ran = points(rng, n, q, p, False, align, pad, nc, nr, part, kind == 'sim')
    cap = None
    if aniso and space == 'fourier':
        cap = min([m//2*x for m, x in zip(n, c) if m % 2 == 0] + [1e9])
        cap = None if cap > 1e8 else cap
    e = edges(rng, n, c, .004 if space == 'fourier' else .08, cap, 2, 4 if heavy else 3)
    wa = None
    if wide:
        wa = rng.choice([[1, 0], [0, 1], [0, 1], [1, 1], [0, 2], [2, 0], [0, 0], [2, 1]])
    nb = len(e) - 1
    form = rng.choice(['diag', 'off-diag', 'row', 'full', 'full'])
    idx = dict(diag=0, full=0).get(form)
    if form == 'off-diag':
        idx = rng.randint(-(nb - 1), nb - 1)
    if form == 'row':
        idx = rng.randint(0, nb - 1)
    s = dict(kind=kind, space=space, n=n, p=p, q=q, inter=False, c=c, d=d, unit=M, l=list(l), los=norm, align=align, pad=pad, cat=cat, ran=ran,
             e=e, form=form, idx=idx, any=len(cat) + len(ran) <= 3 and math.prod(n) <= 18, meta=j % 4 == 0 and math.prod(n) <= 18,
             padscale=scale, padfactor=factor, ask=rng.random() < .3, wa=bool(wa), orders=wa or [])
    b = bound(s)
    if b['trip'] > 2**31 or b['w3'] > 2**31 or b['x'] > 2**31 or b['tab'] > 2**31 or b['raw'] > 2**31:
        raise RuntimeError
    if b['collapse'] > 2**30:
        s['meta'] = False
    return s


def unit(s, j):
    """Unit of the binned metric, unit of the dual metric, box."""
    if s['space'] == 'config':
        u = [16., 20., 25.][j % 3]
        return u, 2*math.pi/(u*s['unit']), [u*x*m for x, m in zip(s['c'], s['n'])]
    L0 = [40., 64., 90.][j % 3]
    return 2*math.pi/L0, L0/s['unit'], [L0/x for x in s['c']]


def job(s, j):
    u, _, box = unit(s, j)
    h = [b/m for b, m in zip(box, s['n'])]
    conv = lambda ps: [dict(x=[x*h[a]/s['q'][a] for a, x in enumerate(p['x'])], l=p['l'], ws=p['ws'], wc=p['wc'], nz=p['nz']/8) for p in ps]
    fn = {('survey', 'fourier'): 'compute_bispec', ('sim', 'fourier'): 'compute_bispec_in_gpp_box',
          ('survey', 'config'): 'compute_3pcf', ('sim', 'config'): 'compute_3pcf_in_gpp_box',
          ('window', 'config'): 'compute_3pcf_window'}[s['kind'], s['space']]
    mode = (j//2) % 3
    d = dict(fn=fn, space=s['space'], box=box, n=s['n'], assignment=SCHEME[s['p']], inter=s['ask'],
             align='pad' if s['align'] == 'pad' else 'centre', padscale=s['padscale'], padfactor=s['padfactor'], degrees=s['l'],
             ctype=dict(survey='survey', sim='sim', window='random')[s['kind']],
             stat='bispec' if s['space'] == 'fourier' else '3pcf' if s['kind'] != 'window' else '3pcf-win',
             e=[a/b*u for a, b in s['e']], norm='particle' if mode == 1 else ['none', 'particle'][(j//3) % 2], mode=mode,
             extra=dict(form=s['form'], idx_bin=s['idx']))
    if s['wa']:
        d['wa'] = s['orders']
    if s['cat']:
        d['cat'] = conv(s['cat'])
    if s['ran']:
        d['ran'] = conv(s['ran'])
    return d


def jl(l, x):
    from scipy.special import spherical_jn
    return float(spherical_jn(l, x))


def mixing(s, box):
    """Transform of the power of the distance from the box corner multiplying the third field, per open mode."""
    n = s['n']
    if not s['wa']:
        return {(0, 0, 0): 1.}
    def w(x):
        r = math.sqrt(sum((signed1(i, m)*b/m)**2 for i, m, b in zip(x, n, box)))
        return 1. if r < 1e-6 else r**-sum(s['orders'])
    xs = cells(n)
    return {q: sum(w(x)*cmath.exp(2j*math.pi*sum(a*b/m for a, b, m in zip(q, x, n))) for x in xs)/len(xs) for q in xs}


def expected(s, o, d, j):
    """Per entry: bin centres, mean coordinates, counts, raw value, shot noise (and the scale of each)."""
    u, du, box = unit(s, j)
    n, p, l = s['n'], s['p'], s['l']
    V, nm = math.prod(box), math.prod(n)
    cell = V/nm
    corr = {tuple(c): math.prod(a/b for a, b in v) for c, v in o['corr']}
    # the random field of a box is compared with its mean: nothing else in the estimators changes with the catalogue kind
    norm = 1. if d['norm'] == 'none' else o['norm'][0]/o['norm'][1]*64
    nl = 1 if s['kind'] == 'sim' else s['los']
    md, wd = o['mden'], o['wden']
    T = o['tden'][1]/o['tden'][0]/nl**l[2]
    win = lambda c: math.sqrt(win2(c, n, p))
    fm, cm = (s['c'], s['d']) if s['space'] == 'fourier' else (s['d'], s['c'])
    length = lambda c: math.sqrt(sum((x*y)**2 for x, y in zip(c, fm)))
    def radial(k, e):
        return 1. if e == 0 else 0. if k == 0 else k**-e
    sphase = (1j)**(l[0] + l[1])
    x = []
    for r in o['x']:
        q = math.sqrt(r['q'])
        w = radial(q, l[0] + l[1])*T
        f = sum(cyc(y['f'])/corr[tuple(y['c'])] for y in r['f'])*w/(md**2*wd**3)
        if all(v % m == 0 for v, m in zip(r['v'], n)):
            f -= nm*r['s3']*w/wd**3
        x.append((q, f, math.sqrt(r['q'])))
    bins = []
    e = d['e']
    for jb, b in enumerate(o['bins']):
        m = sum(math.sqrt(y['q']) for y in b)*u
        bins.append(((e[jb] + e[jb + 1])/2, m/len(b) if b else None, len(b)))
    out = []
    if s['space'] == 'fourier':
        member = [{tuple(y['c']) for y in b} for b in o['bins']]
        tr = []
        for t in o['trip']:
            k1, k2, k3, q = t['c']
            w = radial(length(k1), l[0])*radial(length(k2), l[1])*T/(md*wd)**3
            tr.append((tuple(k1), tuple(k2), cyc(t['f'])*w/(win(k1)*win(k2)*win(k3))))
        for a, b in o['entries']:
            A, B = bins[a - 1], bins[b - 1]
            if not A[2]*B[2]:
                out.append((A, B, None, 0, None, 0))
                continue
            parts = [f for k1, k2, f in tr if k1 in member[a - 1] and k2 in member[b - 1]]
            raw = sum(parts)/(A[2]*B[2])*norm
            rs = sum(map(abs, parts))/(A[2]*B[2])*norm
            sn = []
            if l[0] == l[1] == 0:
                sn.append(o['w3']/wd**3)
            for on, idx, f0, t0, e1 in ((l[1] == 0, a, 'a', 'ta', l[0]), (l[0] == 0, b, 'b', 'tb', l[1])):
                if on:
                    for h in o['h']:
                        if tuple(h['c']) in member[idx - 1]:
                            w = radial(math.sqrt(h['q']), e1)*T/bins[idx - 1][2]
                            sn.append(cyc(h[f0])/corr[tuple(h['c'])]*w/(md**2*wd**3))
                            sn.append(-h[t0]*w/wd**3)
            for q, f, _ in x:
                r = q*du
                sn.append(sphase*cell/V*jl(l[0], A[1]*r)*jl(l[1], B[1]*r)*f)
            out.append((A, B, raw, rs, sum(sn)*norm, sum(map(abs, sn))*norm))
    else:
        k = lambda c: length(c)*du
        K = mixing(s, box)
        tr = []
        for t in o['trip']:
            k1, k2, k3, q = t['c']
            w = radial(length(k1), l[0])*radial(length(k2), l[1])*T/(md*wd)**3
            if any(t['f']):
                tr.append((k(k1), k(k2), cyc(t['f'])*w*K[tuple(q)]/(win(k1)*win(k2)*win(k3))))
        for a, b in o['entries']:
            A, B = bins[a - 1], bins[b - 1]
            ra, rb = (X[1] if X[2] else X[0] for X in (A, B))
            parts = [jl(l[0], k1*ra)*jl(l[1], k2*rb)*f for k1, k2, f in tr]
            raw, rs = sphase*sum(parts)/V**2*norm, sum(map(abs, parts))/V**2*norm
            sn, ss = 0., 0.
            if a == b and A[2]:
                lo, hi = (F(*s['e'][a - 1])**2, F(*s['e'][a])**2)
                ps = [f for (q, f, _), r in zip(x, o['x']) if lo <= r['q'] < hi]
                sn = sum(ps)*norm/(V*cell*A[2]**2)
                ss = sum(map(abs, ps))*norm/(V*cell*A[2]**2)
            out.append((A, B, raw, rs, sn, ss))
    return out


def compare(s, d, want, r):
    four = s['space'] == 'fourier'
    c, cnt = ('k', 'nmodes') if four else ('r', 'npairs')
    raw, shot = ('bk_raw', 'bk_shot') if four else ('zeta_raw', 'zeta_shot')
    e = d['e']
    if len(r[raw]) != len(want):
        return f'length is {len(r[raw])} expected {len(want)}'
    cx = lambda v: complex(*v)
    vs = max([w[3] for w in want] + [1e-30])
    ss = max([w[5] for w in want] + [1e-30])
    for i, (A, B, v, _, sn, _) in enumerate(want):
        for q, X in ((1, A), (2, B)):
            if not abs(r[f'{c}{q}_bin'][i] - X[0]) <= 1e-9*e[-1]:
                return f'centre{q} of entry {i} is {r[f"{c}{q}_bin"][i]} expected {X[0]}'
            if r[f'{cnt}_{q}'][i] != X[2]:
                return f'count{q} of entry {i} is {r[f"{cnt}_{q}"][i]} expected {X[2]}'
            if X[2] and not abs(r[f'{c}{q}_eff'][i] - X[1]) <= 1e-9*e[-1]:
                return f'mean{q} of entry {i} is {r[f"{c}{q}_eff"][i]} expected {X[1]}'
        if v is not None and not abs(cx(r[raw][i]) - v) <= 2e-6*vs + 1e-12:
            return f'raw of entry {i} ({A[2]},{B[2]}) is {cx(r[raw][i])} expected {v}'
        if sn is not None and not abs(cx(r[shot][i]) - sn) <= 2e-6*ss + 1e-12:
            return f'shot of entry {i} ({A[2]},{B[2]}) is {cx(r[shot][i])} expected {sn}'


INV = ''.join(f'INVARIANT {x}\n' for x in ('Emit', 'PlacedInside', 'Scalar', 'Exchange', 'Parity', 'Collapse', 'OrderFree'))


def check(ctx, space, count):
    rng = ctx.rng
    scen = [scenario(rng, j, space, not ctx.quick) for j in range(count)]
    ctx.log('scenarios ready')
    exp = ctx.oracle('ThreePt', scen, cfgx=INV)
    ctx.log('expectations ready')
    jobs = [job(s, j) for j, s in enumerate(scen)]
    res = ctx.drive('d_stats.py', jobs, procs=6)
    for j, (s, o, d, g) in enumerate(zip(scen, exp, jobs, res)):
        ctx.traces += 1
        ctx.act(f'{d["fn"]}:{d["assignment"]}')
        ctx.act('degrees=%d%d%d' % tuple(s['l']))
        ctx.act(f'form={s["form"]}')
        if s['wa']:
            ctx.act('wide-angle')
        tag = f'{d["fn"]}:{"%d%d%d" % tuple(s["l"])}:{s["form"]}'
        bad = f'fails: {g}' if 'res' not in g else compare(s, d, expected(s, o, d, j), g['res'])
        if bad:
            ctx.violation(f'{tag}:{bad.split(" ")[0]}', f'{d["fn"]} degrees {s["l"]} form {s["form"]} {s["idx"]} mesh {s["n"]} {d["assignment"]} '
                          f'align={s["align"]} norm={d["norm"]} mode={d["mode"]}: {bad}', [s, d, g])
    ctx.sample(dict(scenario=scen[0], entries=exp[0]['entries']))
