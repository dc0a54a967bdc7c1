"""C15: normalisation factors against the exact sums of Norm.tla, and the conventions applied to whole measurements."""
import math
from geom import *
from stats2 import SCHEME

INV = ''.join(f'INVARIANT {x}\n' for x in ('Emit', 'MassKept', 'Bounds', 'Derived', 'OrderFree'))
KD = {1: lambda q: 1, 2: lambda q: q, 3: lambda q: 8*q*q, 4: lambda q: 6*q**3}


def scenario(rng, j):
    while True:
        s = scenario1(rng, j)
        if s:
            return s


def scenario1(rng, j):
    kind = ['mesh', 'mixed', 'auto'][j % 3]
    p = rng.choice([1, 2, 2, 3, 4])
    q = [4, 4, 4] if p == 1 else [2, 2, 2] if p < 3 else [1, 1, 1]
    if kind == 'auto' and p > 2:
        q = [2, 2, 2]
    n = [rng.choice([1, 2, 3, 4, 5]) for _ in range(3)]
    align, scale, fac = rng.choice(['centre', 'pad']), 'box', [0, 1]
    if kind == 'mesh':
        align = 'none'
    if align == 'pad':
        scale = rng.choice(['box', 'grid'])
        fac = rng.choice([[0, 1], [1, 2], [1, 1]]) if scale == 'grid' else rng.choice([[0, 1], [1, 4], [1, 8]])
    small = p > 2
    part = lambda: dict(ws=1 if small else rng.choice([1, 1, 2, 3]), wc=1 if small else rng.choice([1, 2]), nz=rng.choice([1, 2, 3]))
    nc, nr = (rng.choice([0, 2]), rng.choice([0, 2, 3, 4])) if kind == 'mesh' else (rng.choice([1, 2, 3]), rng.choice([2, 3, 4]))
    if nc + nr == 0:
        nc = 3
    padding = [0, 1]
    if kind == 'auto':
        padding = rng.choice([[0, 1], [1, 10], [1, 2], [1, 4]])
        # the whole derived box: particles spread over a few cells
        span = rng.randint(1, 4*q[0])
        box = lambda: [rng.randint(0, span) for _ in range(3)]
        cat, ran = [box() for _ in range(nc)], [box() for _ in range(nr)]
        if align == 'centre':
            ran = [[x & ~1 for x in r] for r in ran]
        ms = max(max(r[a] for r in c) - min(r[a] for r in c) for c in (cat, ran) for a in range(3))
        f = (padding[0] + padding[1])*ms/(padding[1]*q[0])
        if ms == 0 or abs(f - round(f)) < 1e-6:
            return
        k = math.ceil(f)
        k += k % 2
        n = [k]*3
        if k > 6:
            return
    else:
        cat = [[rng.randint(0, n[a]*q[a]) for a in range(3)] for _ in range(nc)]
        ran = [[rng.randint(0, n[a]*q[a]) for a in range(3)] for _ in range(nr)]
    ref = ran or cat
    t = [0]*3
    if scale == 'grid' and fac[0]*q[0] % fac[1] or scale == 'box' and any(fac[0]*m*x % fac[1] for m, x in zip(n, q)):
        return
    if scale == 'grid' and kind != 'mesh' and fac[0]/fac[1] >= min(n):
        return
    for a in range(3):
        lo, hi = min(r[a] for r in ref), max(r[a] for r in ref)
        if align == 'pad':
            t[a] = (fac[0]*q[a] if scale == 'grid' else fac[0]*n[a]*q[a])//fac[1] - lo
        elif align == 'centre':
            if (n[a]*q[a] - lo - hi) % 2:
                return
            t[a] = (n[a]*q[a] - lo - hi)//2
        for x in cat + ran:
            y = x[a] + t[a]
            if not 0 <= y <= n[a]*q[a] or p == 1 and y % 4 == 2:
                return
    off = [rng.randint(-50, 50) if kind != 'mesh' else 0 for _ in range(3)]
    mk = lambda c: [dict(x=[a + b for a, b in zip(x, off)], **part()) for x in c]
    s = dict(kind=kind, n=n, q=q, p=p, align=align, padscale=scale, factor=fac, padding=padding, cat=mk(cat), ran=mk(ran), any=len(cat) + len(ran) <= 3,
             meta=j % 4 < 2 and math.prod(n) <= 64)
    den = math.prod(KD[p](x) for x in q)
    W = max(sum(x['ws']*x['wc'] for x in c) for c in (s['cat'], s['ran']))
    if (den*W)**2 > 2**30:
        return
    s['cube'] = kind == 'mesh' and (den*W)**3 < 2**31
    return s


def rank(v):
    return 1/v if v else float('inf')


def direct(ctx, count):
    rng = ctx.rng
    scen = [scenario(rng, j) for j in range(count)]
    exp = ctx.oracle('Norm', scen, cfgx=INV)
    h = ctx.compile_harness('h_norm.cpp')
    jobs = []
    for j, s in enumerate(scen):
        cell = [10., 8., 12.5][j % 3]
        hs = [cell]*3 if s['kind'] == 'auto' else [cell*rng.choice([1, 1.5, 2]) for _ in range(3)]
        box = [x*m for x, m in zip(hs, s['n'])]
        sc, sr = sum(p['ws'] for p in s['cat']), sum(p['ws'] for p in s['ran'])
        alpha = rng.choice([.5, .125, 2., sc/sr if sc and sr else 1.])
        conv = lambda ps: [dict(x=[y*z/w for y, z, w in zip(p['x'], hs, s['q'])], ws=p['ws'], wc=p['wc'], nz=p['nz']/8) for p in ps]
        given = dict(boxsize=box, ngrid=s['n'])
        if s['kind'] == 'auto':      # the given mesh must not matter
            given = dict(boxsize=[rng.uniform(500, 900)]*3, ngrid=[rng.choice([8, 16])]*3)
        f = s['factor'][0]/s['factor'][1]
        params = dict(given, catalogue_type='survey', statistic_type='powspec', alignment='centre' if s['align'] == 'none' else s['align'],
                      padscale=s['padscale'], padfactor=f, assignment=SCHEME[s['p']] if s['kind'] != 'auto' else rng.choice(list(SCHEME.values())),
                      interlace=rng.choice(['true', 'false']), norm_convention=rng.choice(['none', 'particle', 'mesh', 'mesh-mixed']))
        d = dict(kind=s['kind'], cat=conv(s['cat']), ran=conv(s['ran']), alpha=alpha, params=params, h=hs)
        if s['kind'] == 'auto':
            d.update(pad_=s['padding'][0]/s['padding'][1], cell=cell, scheme=SCHEME[s['p']])
        jobs.append(d)
    res = ctx.drive(h, jobs, procs=4)
    for s, o, d, g in zip(scen, exp, jobs, res):
        ctx.traces += 1
        ctx.act(f'{s["kind"]}:{SCHEME[s["p"]]}')
        al, v, den = d['alpha'], math.prod(d['h']), o['den']
        want = dict(p2=1/(al*o['i2']/8), p3=1/(al*o['i3']/64), sn=o['sn'])
        if s['kind'] == 'mesh':
            want['m2'] = rank(al**2*o['c2']/den**2/v)
            if s['cube']:
                want['m3'] = rank(al**3*o['c3']/den**3/v**2)
        else:
            want['mm'] = rank(al*o['c12']/den**2/v)
        for k, w in want.items():
            x = g.get(k)
            if w == float('inf') and x in (None, w, 'inf'):      # no overlap
                continue
            if not isinstance(x, (int, float)) or not abs(x - w) <= 1e-11*abs(w):
                ctx.violation(f'{s["kind"]}:{k}', f'normalisation {k} of {s["kind"]} mesh {s["n"]} {SCHEME[s["p"]]} align={s["align"]} alpha={al}: {x} expected {w}', [s, d, g])
        if s['kind'] != 'mesh' and 'pre' in g:
            for a, b in zip(g['pre'], g['post']):
                if any(abs(x - y) > 1e-9 for x, y in zip(a, b)):
                    ctx.violation(f'{s["kind"]}:restored', f'catalogue positions {a} became {b} while normalising', [s, d, g])
            after = g['after']
            if after['boxsize'] != d['params']['boxsize'] or after['ngrid'] != d['params']['ngrid'] or after['assignment'] != d['params']['assignment']:
                ctx.violation(f'{s["kind"]}:parameters', f'parameters changed while normalising: {after}', [s, d])
    # unusable densities
    z = [dict(x=[1., 2., 3.], ws=1, wc=1, nz=0.)]*2
    bad = [dict(kind='mesh', cat=z, ran=[], alpha=1., params=dict(boxsize=[10.]*3, ngrid=[2]*3)), dict(empty=1, cat=[], ran=[])]
    for d, g in zip(bad, ctx.drive(h, bad)):
        for k in ('p2', 'p3', 'sn')[:2 + ('empty' in d)]:
            if g.get(k) != 'rejected':
                ctx.violation(f'unusable:{k}', f'particle normalisation of a catalogue without {"particles" if "empty" in d else "densities"} gave {g.get(k)}', [d, g])
    ctx.sample(dict(scenario=scen[0], sums=exp[0]))


# -- conventions in whole measurements ------------------------------------------
FN = {('survey', 'powspec'): 'compute_powspec', ('sim', 'powspec'): 'compute_powspec_in_gpp_box', ('survey', '2pcf'): 'compute_corrfunc',
      ('sim', '2pcf'): 'compute_corrfunc_in_gpp_box', ('random', '2pcf-win'): 'compute_corrfunc_window',
      ('survey', 'bispec'): 'compute_bispec', ('sim', 'bispec'): 'compute_bispec_in_gpp_box', ('survey', '3pcf'): 'compute_3pcf',
      ('sim', '3pcf'): 'compute_3pcf_in_gpp_box', ('random', '3pcf-win'): 'compute_3pcf_window'}
RAW = {'powspec': 'pk_raw', '2pcf': 'xi', '2pcf-win': 'xi', 'bispec': 'bk_raw', '3pcf': 'zeta_raw', '3pcf-win': 'zeta_raw'}


def whole(ctx, count):
    """A statistic under each convention is the unnormalised one times the factor of Norm.tla; rescaling the randoms changes nothing."""
    rng = ctx.rng
    plans, scen = [], []
    for j in range(count):
        ctype, stat = list(FN)[j % len(FN)]
        three = stat in ('bispec', '3pcf', '3pcf-win')
        p = rng.choice([1, 2])
        q = [4]*3 if p == 1 else [2]*3
        while True:
            n = [rng.choice([4, 6]) for _ in range(3)]
            cell = 10.
            put = lambda k, m=1: [dict(x=[rng.randint(0, a*b)//m*m for a, b in zip(n, q)], ws=rng.choice([1, 2]), wc=rng.choice([1, 2]), nz=rng.choice([1, 2, 3])) for _ in range(k)]
            cat = put(rng.randint(2, 4)) if ctype != 'random' else []
            ran = put(rng.randint(3, 6)) if ctype != 'sim' else []
            ref = ran or cat
            ext = [(min(r['x'][a] for r in ref), max(r['x'][a] for r in ref)) for a in range(3)]
            if any((n[a]*q[a] - lo - hi) % 2 for a, (lo, hi) in enumerate(ext)) or any(a == b for a, b in ext):
                continue
            t = [(n[a]*q[a] - lo - hi)//2 for a, (lo, hi) in enumerate(ext)]
            ys = [x['x'][a] + t[a] for x in cat + ran for a in range(3)]
            if any(not 0 <= x['x'][a] + t[a] <= n[a]*q[a] for x in cat + ran for a in range(3)) or p == 1 and any(y % 4 == 2 for y in ys):
                continue
            break
        base = dict(n=n, q=q, p=p, align='centre', padscale='box', factor=[0, 1], padding=[1, 10], cat=cat, ran=ran, any=False, meta=False, cube=three)
        # the mesh convention of the measured box: randoms (or the box's own particles)
        mesh = dict(base, kind='mesh', cat=[] if ran else cat)
        k = len(scen)
        scen.append(mesh)
        mixed = None
        if (ctype, three) == ('survey', False):
            q2 = 10      # unit: a tenth of the default normalisation cell (cic)
            u = [x*q2//y for x, y in zip([1]*3, q)]      # measured cells are 10 wide as well
            sc = lambda c: [dict(c0, x=[x*q2//y for x, y in zip(c0['x'], q)]) for c0 in c]
            a = dict(base, kind='auto', n=[0]*3, q=[q2]*3, p=2, cat=sc(cat), ran=sc(ran))
            ms = max(max(r['x'][b] for r in c) - min(r['x'][b] for r in c) for c in (a['cat'], a['ran']) for b in range(3))
            f = 1.1*ms/q2
            kk = math.ceil(f)
            kk += kk % 2
            ext = [(min(r['x'][b] for r in a['ran']), max(r['x'][b] for r in a['ran'])) for b in range(3)]
            ins = all(0 <= x['x'][b] + (kk*q2 - ext[b][0] - ext[b][1])//2 <= kk*q2 for x in a['cat'] + a['ran'] for b in range(3))
            W = max(sum(x['ws']*x['wc'] for x in c) for c in (cat, ran))
            if abs(f - round(f)) > 1e-6 and ins and all((kk*q2 - x - y) % 2 == 0 for x, y in ext) and (q2**3*W)**2 < 2**31:
                a['n'] = [kk]*3
                mixed = len(scen)
                scen.append(a)
        plans.append((ctype, stat, base, k, mixed))
    exp = ctx.oracle('Norm', scen, cfgx=INV)
    jobs, back = [], []
    for ctype, stat, b, k, mixed in plans:
        box = [10.*m for m in b['n']]
        conv = lambda ps, lam=1: [dict(x=[10.*y/w for y, w in zip(p['x'], b['q'])], ws=p['ws']*lam, wc=p['wc'], nz=p['nz']/8, l=[0, .6, .8]) for p in ps]
        config = stat not in ('powspec', 'bispec')
        d = dict(fn=FN[ctype, stat], space='config' if config else 'fourier', box=box, n=b['n'], assignment=SCHEME[b['p']], inter=False, align='centre',
                 padscale='box', padfactor=0., degrees=rng.choice([[0, 0, 0], [1, 1, 0], [0, 2, 2]]) if stat in ('bispec', '3pcf', '3pcf-win') else [0, 0, rng.choice([0, 2])],
                 ctype=ctype, stat=stat, e=[5., 15., 29.] if config else [.05, .15, .3], mode=0, extra=dict(form='full', idx_bin=0))
        if b['cat']:
            d['cat'] = conv(b['cat'])
        if b['ran']:
            d['ran'] = conv(b['ran'])
        mk = [('none', 1)] + [('particle', 1), ('mesh', 1)] + ([('mesh-mixed', 1)] if mixed is not None else [])
        if ctype == 'survey':
            mk += [(c, 4) for c, _ in mk[1:]]
        for c, lam in mk:
            e = dict(d, norm=c)
            if lam != 1:
                e['ran'] = conv(b['ran'], lam)
            jobs.append(e)
            back.append((ctype, stat, b, k, mixed, c, lam))
    res = ctx.drive('d_stats.py', jobs, procs=6)
    base = {}
    for d, g, (ctype, stat, b, k, mixed, c, lam) in zip(jobs, res, back):
        ctx.traces += 1
        ctx.act(f'{d["fn"]}:{c}' + (':rescaled' if lam != 1 else ''))
        key = f'{d["fn"]}:{c}' + (':rescaled' if lam != 1 else '')
        if 'res' not in g:
            ctx.violation(key + ':fails', f'{key}: {g}', d)
            continue
        v = [complex(*x) for x in g['res'][RAW[stat]]]
        if c == 'none':
            base[id(b)] = v
            continue
        three = 'bispec' in stat or stat.startswith('3')
        o, m = exp[k], exp[mixed] if mixed is not None else None
        al = sum(x['ws'] for x in b['cat'])/sum(x['ws'] for x in b['ran']) if ctype == 'survey' else 1.
        if c == 'particle':
            f = 1/(al*(o['i3']/64 if three else o['i2']/8))
        elif c == 'mesh':
            f = rank(al**3*o['c3']/o['den']**3/1e6) if three else rank(al**2*o['c2']/o['den']**2/1e3)
        else:
            f = rank(al*m['c12']/m['den']**2/1e3)
        # an exactly vanishing multipole is only roundoff of its monopole, so the tolerance also knows the unnormalised size of that
        big = max([abs(x) for x in base[id(b)] if x == x] + [0])
        mass = sum(q['ws']*q['wc'] for q in b['ran'] or b['cat'])
        scale = (big*1e-9 + mass**(3 if three else 2)*1e-12)*abs(f)
        for i, (x, y) in enumerate(zip(v, base[id(b)])):
            if x == x and y == y and f < 1e300 and not abs(x - y*f) <= scale:
                ctx.violation(key, f'{key} on {b["n"]}: value {i} is {x}, expected {y} times {f}', [d, g])
                break
    ctx.sample(dict(measurement={x: y for x, y in jobs[1].items() if x not in ('cat', 'ran')}))


def run(ctx):
    ctx.build(ext=True, cpp=True)
    direct(ctx, ctx.pick(300, 4000))
    ctx.log('factors compared')
    whole(ctx, ctx.pick(60, 600))
