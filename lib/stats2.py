"""Scenarios and exact expectations of the two-point statistics (TwoPt.tla)."""
import cmath, math
from geom import *

SCHEME = {1: 'ngp', 2: 'cic', 3: 'tsc', 4: 'pcs'}


def edges(rng, n, c, fine, kmin=2, kmax=4, lo=None):
    maxsq = sum(((m//2)*x)**2 for m, x in zip(n, c))
    top = math.isqrt(maxsq) + 1
    for _ in range(1000):
        k = rng.randint(kmin, kmax)
        e = sorted(rng.sample(range(0, 8*top + 4), k + 1))
        if rng.random() < .6:
            e[0] = 0
        if rng.random() < .6:
            e[-1] = 8*top + 4
        if len(set(e)) == k + 1 and all(abs(x/8 - math.sqrt(q)) > fine for x in e if x for q in range(maxsq + 1)):
            return [[x//math.gcd(x, 8), 8//math.gcd(x, 8)] for x in e]
    raise RuntimeError


def points(rng, n, q, p, inter, align, pad, nc, nr, part, wrap=False):
    """Raw integer catalogues whose aligned positions are inside the box, off nearest-cell ties."""
    lo = lambda a: 0
    for _ in range(400):
        ok = True
        cat, ran = [], []
        shift = [rng.randint(-40, 40) for _ in range(3)]
        xs = {}
        for name, m in (('cat', nc), ('ran', nr)):
            xs[name] = [[rng.randint(0, n[a]*q[a] - (1 if wrap else 0)) for a in range(3)] for _ in range(m)]
        for name in xs:
            if wrap:
                xs[name] = [[x[a] + n[a]*q[a]*rng.randint(-2, 2) for a in range(3)] for x in xs[name]]
        ref = xs['cat'] if wrap else xs['ran']
        for a in range(3):
            r = [x[a] for x in ref]
            if align == 'pad':
                t = pad[a] - min(r)
            else:
                if (n[a]*q[a] - min(r) - max(r)) % 2:
                    ok = False
                    break
                t = (n[a]*q[a] - min(r) - max(r))//2
            for name in xs:
                for x in xs[name]:
                    y = x[a] + t
                    if not wrap and not 0 <= y <= n[a]*q[a]:
                        ok = False
                    if p == 1 and (y % 4 == 2 or (inter and y % 4 == 0)):
                        ok = False
        if max(max(x[a] for x in ref) - min(x[a] for x in ref) for a in range(3)) == 0 and not wrap:
            ok = False
        if not ok:
            continue
        for name, out in (('cat', cat), ('ran', ran)):
            for x in xs[name]:
                y = [x[a] + (0 if wrap else shift[a]) for a in range(3)]
                out.append(dict(x=y, **part()))
        return cat, ran
    raise RuntimeError('no points')


def scenario(rng, j, space):
    while True:
        try:
            return scenario1(rng, j, space)
        except RuntimeError:
            pass


def scenario1(rng, j, space):
    kind = ['survey', 'survey', 'sim', 'window' if space == 'config' else 'survey'][j % 4]
    p = rng.choice([1, 1, 2, 2, 3, 4])
    inter = rng.random() < .4
    L = rng.choice([0, 1, 2, 2, 3, 4]) if p < 3 else rng.choice([0, 1, 2])
    norm = 1 if L > 2 or p >= 3 else rng.choice([1, 3, 5])
    if p == 1:
        q = [4, 4, 4]
    elif inter:
        q = [2, 2, 2]
    else:
        q = {2: [2, 2, 2], 3: [1, 2, 1], 4: [2, 1, 1]}[p]
    pool = [1, 2, 3, 4, 6] if p < 3 else [1, 2, 3, 4]
    while True:
        n = [rng.choice(pool) for _ in range(3)]
        if sum(m > 1 for m in n) < 2 + (not inter or p < 3) and not (inter and p > 2):
            continue
        if inter and p > 2 and sum(m > 1 for m in n) > 2:
            continue
        if math.prod(n) <= (72 if space == 'fourier' else 36) and (p < 3 or math.prod(n) <= 24) and sum(n) > 6:
            break
    c = rng.choice([[1, 1, 1], [1, 2, 1], [1, 1, 2], [2, 1, 1]]) if p < 3 and L < 3 else [1, 1, 1]
    small = p >= 3
    part = lambda: dict(l=los(rng, norm), ws=1 if small else rng.choice([1, 1, 2]), wc=1 if small else rng.choice([1, 2]), nz=rng.choice([1, 2, 3]))
    align = dict(survey=rng.choice(['centre', 'pad']), window='centre', sim='wrap')[kind]
    scale, factor, pad = 'box', 0., [0, 0, 0]
    if align == 'pad':
        ch = [('grid', f) for f in (0., 1., .5) if f < min(n) and all((f*x) % 1 == 0 for x in q)]
        ch += [('box', f) for f in (0., .25, .125, .5) if all((f*m*x) % 1 == 0 for m, x in zip(n, q))]
        scale, factor = rng.choice(ch)
        pad = [int(factor*x) if scale == 'grid' else int(factor*m*x) for m, x in zip(n, q)]
    nc, nr = rng.choice([(1, 2), (2, 2), (2, 3), (3, 2)])
    if L > 2 or small:
        nc, nr = rng.choice([(1, 2), (2, 2)])
    if kind == 'window':
        nc = 0
        nr = max(nr, 2)
    if kind == 'sim':
        nr = 0
        nc = rng.choice([1, 2, 3])
    cat, ran = points(rng, n, q, p, inter, align, pad, nc, nr, part, kind == 'sim')
    # every integer of the specification stays within TLC's 32 bits
    kd = {1: lambda x: 1, 2: lambda x: x, 3: lambda x: 8*x*x, 4: lambda x: 6*x**3}[p]
    mden = math.prod(kd(x) if m > 1 else 1 for x, m in zip(q, n))*(2 if inter else 1)
    if kind == 'survey':
        sc, sr = sum(x['ws'] for x in cat), sum(x['ws'] for x in ran)
        g = math.gcd(sc, sr)
        W = sum(x['ws']*x['wc'] for x in cat)*sr//g + sum(x['ws']*x['wc'] for x in ran)*sc//g
    else:
        W = sum(x['ws']*x['wc'] for x in cat + ran)
    leg = (2*math.sqrt(sum(((m//2)*x)**2 for m, x in zip(n, c)))*norm)**L
    if mden**2*W**2*leg*(8 if space == 'fourier' else 30) > 2**31:
        raise RuntimeError
    e = edges(rng, n, c, .001 if space == 'fourier' else .04)
    return dict(kind=kind, space=space, n=n, p=p, q=q, inter=inter, c=c, L=L, los=norm, align=align, pad=pad, cat=cat, ran=ran, e=e,
                any=len(cat) + len(ran) <= 3, meta=j % 5 == 0, padscale=scale, padfactor=factor)


def unit(s, j):
    """Length unit (config) or wavenumber unit (Fourier) and the box."""
    if s['space'] == 'config':
        u = [4., 8., 5.][j % 3]
        return u, [u*x*m for x, m in zip(s['c'], s['n'])]
    L0 = [40., 64., 90.][j % 3]
    return 2*math.pi/L0, [L0/x for x in s['c']]


def job(s, j):
    u, box = unit(s, j)
    h = [b/m for b, m in zip(box, s['n'])]
    conv = lambda ps: [dict(x=[x*h[a]/s['q'][a] for a, x in enumerate(p['x'])], l=p['l'], ws=p['ws'], wc=p['wc'], nz=p['nz']/8) for p in ps]
    fn = {('survey', 'fourier'): 'compute_powspec', ('sim', 'fourier'): 'compute_powspec_in_gpp_box',
          ('survey', 'config'): 'compute_corrfunc', ('sim', 'config'): 'compute_corrfunc_in_gpp_box',
          ('window', 'config'): 'compute_corrfunc_window'}[s['kind'], s['space']]
    mode = j % 3
    d = dict(fn=fn, space=s['space'], box=box, n=s['n'], assignment=SCHEME[s['p']], inter=s['inter'],
             align='pad' if s['align'] == 'pad' else 'centre', padscale=s['padscale'], padfactor=s['padfactor'], degrees=[0, 0, s['L']],
             ctype=dict(survey='survey', sim='sim', window='random')[s['kind']],
             stat='powspec' if s['space'] == 'fourier' else '2pcf' if s['kind'] != 'window' else '2pcf-win',
             e=[a/b*u for a, b in s['e']], norm='particle' if mode == 1 else ['none', 'particle'][(j//3) % 2], mode=mode)
    if s['cat']:
        d['cat'] = conv(s['cat'])
    if s['ran']:
        d['ran'] = conv(s['ran'])
    return d


def alias_iso(lab, n, p):
    u = math.sqrt(sum((math.pi*x/m)**2 for x, m in zip(lab, n)))/2
    s2, c2 = math.sin(u)**2, math.cos(u)**2
    cs = {1: 1, 2: 1 - 2/3*s2, 3: 1 - s2 + 2/15*s2*s2, 4: 1 - 4/3*s2 + 2/5*s2**2 - 4/315*s2**3}[p]
    return c2**p*cs


def win2(lab, n, p):
    return math.prod(sinc(x, m) for x, m in zip(lab, n))**(2*p)


def expected(s, o, d, j):
    """Per bin: coordinate mean, count, value, shot noise."""
    u, box = unit(s, j)
    n, p, L = s['n'], s['p'], s['L']
    V, nm = math.prod(box), math.prod(n)
    corr = {tuple(c): math.prod(a/b for a, b in v) for c, v in o['corr']}
    C = (lambda lab: win2(lab, n, p)) if s['inter'] else (lambda lab: corr[tuple(lab)])
    R = (lambda lab: alias_iso(lab, n, p)/win2(lab, n, p)) if s['inter'] else (lambda lab: 1.)
    norm = 1. if d['norm'] == 'none' else o['norm'][0]/o['norm'][1]*8
    nl = 1 if s['kind'] == 'sim' else s['los']
    den = o['mden']**2*o['wden']**2
    out = []
    lab = lambda i, m: i if 2*i < m else i - m
    Rk = None
    if s['space'] == 'config':
        import numpy as np
        Rk = np.array([R([abs(lab(x, m)) for x, m in zip(z, n)]) for z in cells(n)]).reshape(n)
        Rx = np.fft.ifftn(Rk)*nm
    for jb, b in enumerate(o['bins']):
        m, val, sn = 0., 0j, 0j
        for x in b:
            r = math.sqrt(x['q'])
            m += r*u
            leg = 1. if L == 0 else 0. if x['q'] == 0 else 1/(2*r*nl)**L
            f = sum(cyc(y['f'])/C(y['c']) for y in x['f'])*leg/den
            q = x['sn']*leg/o['wden']**2
            if s['space'] == 'fourier':
                val += f
                sn += q*R([abs(v) for v in x['v']])
            else:
                val += (f - q*Rx[tuple(v % k for v, k in zip(x['v'], n))])/V
        k = len(b)
        e = d['e']
        out.append((m/k if k else (e[jb] + e[jb + 1])/2, k, val/max(k, 1)*(2*L + 1)*norm, sn/max(k, 1)*(2*L + 1)*norm))
    return out


def check(ctx, space, count):
    rng = ctx.rng
    scen = [scenario(rng, j, space) for j in range(count)]
    exp = ctx.oracle('TwoPt', scen, cfgx='INVARIANT Emit\nINVARIANT PlacedInside\nINVARIANT OrderFree\nINVARIANT Translation\n'
                     'INVARIANT RealMonopole\nINVARIANT Pairs\n')
    ctx.log('expectations ready')
    jobs = [job(s, j) for j, s in enumerate(scen)]
    res = ctx.drive('d_stats.py', jobs, procs=6)
    for j, (s, o, d, g) in enumerate(zip(scen, exp, jobs, res)):
        ctx.traces += 1
        ctx.act(f'{d["fn"]}:{d["assignment"]}{":interlaced" if s["inter"] else ""}')
        ctx.act(f'ell={s["L"]}')
        tag = f'{d["fn"]}:{d["assignment"]}:{"inter" if s["inter"] else "plain"}'
        if 'res' not in g:
            ctx.violation(f'{tag}:fails', f'{d["fn"]} ell={s["L"]} mesh {s["n"]}: {g}', [s, d])
            continue
        want = expected(s, o, d, j)
        r = g['res']
        pre = ('k', 'nmodes') if space == 'fourier' else ('r', 'npairs')
        val = r['pk_raw'] if space == 'fourier' else r['xi']
        scale = max([abs(w[2]) for w in want] + [1e-30])
        sscale = max([abs(w[3]) for w in want] + [1e-30])
        bad = None
        for b, w in enumerate(want):
            e = d['e']
            if abs(r[pre[0] + 'bin'][b] - (e[b] + e[b + 1])/2) > 1e-9*e[-1]:
                bad = f'centre of bin {b} is {r[pre[0] + "bin"][b]}'
            elif r[pre[1]][b] != w[1]:
                bad = f'count of bin {b} is {r[pre[1]][b]} expected {w[1]}'
            elif abs(r[pre[0] + 'eff'][b] - w[0]) > 1e-9*e[-1]:
                bad = f'mean coordinate of bin {b} is {r[pre[0] + "eff"][b]} expected {w[0]}'
            elif not abs(complex(*val[b]) - w[2]) <= 1e-9*scale + 1e-12:
                bad = f'value of bin {b} is {complex(*val[b])} expected {w[2]}'
            elif space == 'fourier' and not abs(complex(*r['pk_shot'][b]) - w[3]) <= 1e-9*sscale + 1e-12:
                bad = f'shot-noise of bin {b} is {complex(*r["pk_shot"][b])} expected {w[3]}'
            if bad:
                break
        if bad:
            ctx.violation(f'{tag}:{bad.split(" ")[0]}', f'{d["fn"]} ell={s["L"]} mesh {s["n"]} {d["assignment"]} interlace={s["inter"]} '
                          f'align={s["align"]} norm={d["norm"]} mode={d["mode"]}: {bad}', [s, d, g])
    ctx.sample(dict(scenario=scen[0], bins=len(exp[0]['bins'])))
