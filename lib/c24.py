"""C24: window convolution against WinConv.tla."""
import random
from fractions import Fraction as F
from math import gcd
import rat

INV = ''.join(f'INVARIANT {x}\n' for x in ['Emit', 'HarmLegal', 'HarmStays', 'Linear', 'OneToOne', 'OwnMean'])
IC = [-1]
MONO = [0, 0, 0]
P1 = [[0], [2], [4], [1], [3]]
P3 = [[0, 0, 0], [1, 1, 0], [2, 0, 2], [1, 1, 2], [2, 2, 0], [0, 2, 2], [1, 1, 1], [0, 1, 1], [1, 0, 1]]


def fr(x):
    x = F(x)
    return [x.numerator, x.denominator]


def key(l):
    return (l[-1],) + tuple(l[:-1])


def uniq(ls):
    return [list(x) for x in sorted({tuple(l) for l in ls}, key=key)]


def poly(rng, n1, n2, big=2, sparse=.6):
    c = [[rng.randint(-big, big) if rng.random() < sparse else 0 for _ in range(n2)] for _ in range(n1)]
    c[0][0] = c[0][0] or rng.choice([-1, 1, 2])
    return c


def rats(c):
    return [[fr(v) for v in r] for r in c]


def grid(rng, lo, hi, n, even):
    if even:
        return [lo + (hi - lo)*F(j, n - 1) for j in range(n)]
    mid = set()
    while len(mid) < n - 2:
        mid.add(lo + (hi - lo)*F(rng.randint(1, 47), 48))
    return [lo] + sorted(mid) + [hi]


def terms(rng, pool, n, ic):
    out = []
    for _ in range(n):
        out.append(dict(q=rng.choice(pool), z=rng.choice(pool), c=rng.choice([[1, 1], [-1, 1], [2, 1], [1, 3], [-2, 5], [3, 2], [1, 7]])))
    if ic:
        out.insert(rng.randint(0, n), dict(q=rng.choice(pool), z=IC, c=rng.choice([[-1, 1], [-1, 1], [1, 2]])))
    return out


def entries(rng, pool, ic):
    ls = rng.sample(pool, rng.randint(1, min(3, len(pool))))
    return [dict(l=l, terms=terms(rng, pool, rng.randint(1, 3), ic and (rng.random() < .7 or k == 0))) for k, l in enumerate(ls)]


# -- what TLC will compute, to keep within its integers ----------------------
def val(c, x, y):
    return rat.horner([rat.horner([F(*v) for v in r], y) for r in c], x)


def walk(s):
    """Every convolution of the behaviour, as the specification has it."""
    qs = {tuple(x['l']): x for x in s['q']}
    cur = {tuple(x['l']): [[F(*v) for v in r] for r in x['c']] for x in s['m']}
    ends = {tuple(x['l']): [F(*v) for v in x['e']] for x in s['z']}
    hist = []
    for op in s['ops']:
        if op['op'] == 'scale':
            cur = {l: [[rat.mul(F(op['by']), v) for v in r] for r in c] for l, c in cur.items()}
        elif op['op'] == 'add':
            for x in op['m']:
                l = tuple(x['l'])
                cur[l] = [[rat.add(v, F(*u)) for v, u in zip(a, b)] for a, b in zip(cur[l], x['c'])]
        else:
            ic = F(0)
            if s['hasic']:
                if op['ic']:
                    ic = F(*op['ic'])
                elif s['dim'] == 2 and (0, 0, 0) in cur and list(MONO) in s['qs']:
                    for l in cur:
                        if list(l) in s['qs']:
                            constraint(qs[l]['c'], [[fr(v) for v in r] for r in cur[l]], ends[l])
                    tot = sum(weight(l)*constraint(qs[l]['c'], [[fr(v) for v in r] for r in cur[l]], ends[l]) for l in cur if list(l) in s['qs'])
                    den = constraint([[[1, 1]]], qs[0, 0, 0]['c'], ends[0, 0, 0])
                    if den == 0:
                        raise rat.Big
                    ic = tot/den
                    if max(abs(ic.numerator), ic.denominator) > 2**17:
                        raise rat.Big
            for e in s['entries']:
                r = next(x['r'] for x in s['pts'] if x['l'] == e['l'])
                for x in r:
                    for y in (r if s['dim'] == 2 else [x]):
                        a = F(0)
                        for t in e['terms']:
                            xx = F(*x) if s['dim'] > 1 else F(0)
                            z = ic if t['z'] == IC else val([[fr(v) for v in u] for u in cur[tuple(t['z'])]], xx, F(*y))
                            a = rat.add(rat.mul(F(*t['c']), rat.mul(val(qs[tuple(t['q'])]['c'], xx, F(*y)), z)), a)
                        # also times a later factor
                        rat.ck(a.numerator*8)
            hist.append(ic)
    return hist


W3 = {(0, 0, 0): 1, (1, 1, 0): 3, (2, 0, 2): 5, (1, 1, 2): 6, (2, 2, 0): 5, (0, 2, 2): 5, (1, 1, 1): 0, (0, 1, 1): 3, (1, 0, 1): 3}


def weight(l):
    return W3[tuple(l)]


def constraint(c, d, e):
    t = F(0)
    lim = 2**24

    def small(v):
        if max(abs(v.numerator), v.denominator) > lim:
            raise rat.Big
        return v
    for a, r in enumerate(c):
        for b, u in enumerate(r):
            for x, rr in enumerate(d):
                for y, v in enumerate(rr):
                    p = lambda n: small(F(e[1]**(n + 3) - e[0]**(n + 3), n + 3))
                    if F(*u) and F(*v):
                        t = small(t + small(F(*u)*F(*v)*small(p(a + x)*p(b + y))))
    return small(t*6)/6


def conf(rng, named):
    dim = rng.choice([1, 2, 2, 3])
    ic = dim > 1 and rng.random() < .5
    pool = rng.sample(P1, rng.randint(1, 4)) if dim == 1 else rng.sample(P3, rng.randint(1, 4))
    compute = ic and dim == 2 and rng.random() < .6
    if compute and MONO not in pool:
        pool[0] = MONO
    name = ''
    if rng.random() < .12:
        n = rng.choice(named)
        name, ents = n['full'], n['entries']
        dim = 1 if len(ents[0]['l']) == 1 else rng.choice([2, 2, 3])
        ic = any(t['z'] == IC for e in ents for t in e['terms'])
        compute = ic and dim == 2 and rng.random() < .6
        pool = uniq([e['l'] for e in ents])
        name = rng.choice([name, name.upper(), name.capitalize()])
    else:
        ents = entries(rng, pool, ic)
    if compute and not any(t['q'] == MONO for e in ents for t in e['terms']) and not name:
        ents[0]['terms'].append(dict(q=MONO, z=MONO, c=[1, 1]))
    needq = uniq(t['q'] for e in ents for t in e['terms'])
    needz = uniq(t['z'] for e in ents for t in e['terms'] if t['z'] != IC)
    hasic = any(t['z'] == IC for e in ents for t in e['terms'])
    rin = rng.choice(['one', 'dict', 'dict'])
    extra = [p for p in (P1 if dim == 1 else P3) if p not in pool]
    qs = needq + ([rng.choice(extra)] if rng.random() < .3 and extra else [])
    if compute and MONO not in qs:
        qs.append(MONO)
    zk = needz + ([rng.choice(extra)] if rng.random() < .3 and rin == 'dict' and extra else [])
    if compute and MONO not in zk:
        if rin == 'one':
            rin = 'dict'
        zk.append(MONO)
    zk, qs = uniq(zk), uniq(qs)
    spline = rng.choice([3, 3, 3, 1, 2, 4, 5]) if not compute else rng.choice([3, 3, 1, 2])
    deg = min(spline, 3 if dim == 1 else 2)
    rng_lo = lambda: F(rng.choice([2, 2, 3, 4]), 4)
    rng_hi = lambda: F(rng.choice([8, 9, 10, 12]), 4)
    cover = compute or rng.random() < .6
    qe = {tuple(l): (F(1, 2), F(3)) if cover else (rng_lo(), rng_hi()) for l in qs}
    ze = {tuple(l): (rng_lo(), rng_hi()) for l in zk}
    qform = rng.choice(['one', 'dict'])
    if qform == 'one':
        qe = {l: next(iter(qe.values())) for l in qe}
    if rin == 'one':
        ze = {l: next(iter(ze.values())) for l in ze}
    ng = lambda: rng.choice([7, 9, 11]) if spline < 5 else rng.choice([9, 11])

    def coefs(l, role):
        if dim == 1:
            return poly(rng, 1, rng.randint(1, deg + 1))
        if compute:
            # the integrands stay cubic: window or model is constant
            flat = (sum(l) + MONO.count(0)) % 2 == 0
            lin = (role == 'q') != (rng.random() < .0 or l[0] == 1 or l == MONO)
            n = 2 if lin else 1
            return poly(rng, n, n)
        if dim == 3:
            # the diagonal has at most the degree of the spline
            a = rng.randint(0, min(spline, 3))
            c = poly(rng, a + 1, a + 1)
            return [[v if x + y <= a else 0 for y, v in enumerate(r)] for x, r in enumerate(c)]
        return poly(rng, rng.randint(1, deg + 1), rng.randint(1, deg + 1))
    qgrid, zgrid = {}, {}
    for l in qs:
        qgrid[tuple(l)] = grid(rng, *qe[tuple(l)], ng(), False)
    for l in zk:
        zgrid[tuple(l)] = grid(rng, *ze[tuple(l)], ng(), compute)
    if qform == 'one':
        qgrid = {l: next(iter(qgrid.values())) for l in qgrid}
    if rin == 'one':
        zgrid = {l: next(iter(zgrid.values())) for l in zgrid}
    ls = [e['l'] for e in ents]
    rout = rng.choice(['one', 'dict', 'none'])
    if rout == 'none' and not (all(l in zk for l in ls) and all(len(g) < 10 for g in zgrid.values())):
        rout = 'dict'
    if rout == 'none':
        zgrid = {l: grid(rng, *ze[l], 7 if spline < 5 else 9, True) for l in zgrid}
        pts = {tuple(l): zgrid[tuple(l)] for l in ls}
    else:
        def few():
            lo, hi = (F(1), F(2)) if cover else (F(1, 4), F(15, 4))
            if cover and rng.random() < .5:
                lo = max(x[0] for x in list(qe.values()) + list(ze.values()))
                hi = min(x[1] for x in list(qe.values()) + list(ze.values()))
            st = [F(j, 4) for j in range(1, 16) if lo <= F(j, 4) <= hi]
            return sorted(rng.sample(st, min(len(st), rng.randint(2, 4))))
        one = few()
        pts = {tuple(l): one if rout == 'one' else few() for l in ls}
    s = dict(kind='conf', dim=dim, entries=ents, named=name, hasic=hasic, qs=qs, qr=list(qs), zk=zk, rin=rin, rout=rout, qform=qform, spline=spline, seed=rng.randint(0, 9999), asobj=rng.random() < .3,
             q=[dict(l=l, c=rats(coefs(l, 'q')), e=[fr(v) for v in qe[tuple(l)]], g=[fr(v) for v in qgrid[tuple(l)]]) for l in qs],
             z=[dict(l=l, e=[fr(v) for v in ze[tuple(l)]], g=[fr(v) for v in zgrid[tuple(l)]]) for l in zk],
             m=[dict(l=l, c=rats(coefs(l, 'z'))) for l in zk],
             pts=[dict(l=list(l), r=[fr(v) for v in r]) for l, r in pts.items()], ops=[])
    if compute:
        # products of window and model are linear in each separation
        for x in s['m']:
            for q in s['q']:
                if q['l'] == x['l'] and len(q['c']) + len(x['c']) > 3:
                    x['c'] = rats(poly(rng, 1, 1)) 
    mono = next((x for x in s['m'] if x['l'] == MONO), None)
    # without the monopole there is no integral constraint
    if hasic and dim == 2 and not compute and rng.random() < .3 and mono is not None and MONO not in needz:
        s['m'].remove(mono)
    ok = dim == 2 and (compute or not (MONO in qs and any(x['l'] == MONO for x in s['m'])))
    for _ in range(rng.randint(1, 4)):
        w = rng.random()
        if w < .55 or not s['ops']:
            g = not ok if dim == 2 else rng.random() < .85
            if ok:
                g = rng.random() < .35
            s['ops'].append(dict(op='conv', ic=fr(F(rng.randint(-3, 3), rng.choice([1, 2]))) if hasic and g else [], omit=rng.random() < .5))
        elif w < .8:
            s['ops'].append(dict(op='scale', by=rng.choice([-2, -1, 2, 3])))
        else:
            s['ops'].append(dict(op='add', m=[dict(l=x['l'], c=rats([[rng.randint(-2, 2) if dim != 3 or a + b < len(r) else 0 for b, _ in enumerate(r)] for a, r in enumerate(x['c'])])) for x in s['m']]))
    # something is missing
    if rng.random() < .15:
        w = rng.choice(['q', 'r', 'z', 'out', 'true'])
        l = rng.choice(needq)
        if w == 'q':
            s['qs'] = [x for x in qs if x != l]
            if qform == 'one':
                s['qr'] = s['qs']
            if not s['qr']:
                s['qform'], s['qr'] = 'dict', list(qs)
        elif w == 'r' and qform == 'dict':
            s['qr'] = [x for x in qs if x != l]
        elif w == 'z' and needz and rin == 'dict':
            l = rng.choice(needz)
            s['zk'] = [x for x in zk if x != l]
        elif w == 'out' and rout == 'none' and rin == 'dict' and ls[0] not in needz:
            s['zk'] = [x for x in zk if x != ls[0]]
        elif w == 'true' and hasic and not name:
            for e in s['entries']:
                e['terms'] = [t for t in e['terms'] if t['z'] == IC] or [dict(q=needq[0], z=IC, c=[1, 1])]
    return s


def conf_ok(rng, named):
    while True:
        s = conf(rng, named)
        if not all(len(e['terms']) for e in s['entries']) or not s['m'] or not s['z']:
            continue
        if any(t['z'] != IC and not any(x['l'] == t['z'] for x in s['m']) for e in s['entries'] for t in e['terms']):
            continue
        if rat.fits(walk, s):
            return s


def base(dim, l, a):
    return (0 if a == 0 else l[0]) if dim == 1 else l[a]


def img(l, row):
    """Laguerre image of a row (as Gauss.tla has it)."""
    def binom(j, m):
        r = F(1)
        for x in range(1, m + 1):
            r *= F(2*(j - x + 1) + 2*l + 1, 2*x)
        return r
    fact = lambda n: 1 if n < 2 else n*fact(n - 1)
    return [sum((F(row[j])*(-1)**t*F(2**j*fact(j), 2**t*fact(t))*binom(j, j - t) for j in range(t, len(row))), F(0)) for t in range(len(row))]


def image(dim, c, l):
    r = [img(l[0] if dim == 1 else l[1], row) for row in c]
    if dim == 1:
        return r
    t = [img(l[0], [r[a][b] for a in range(len(r))]) for b in range(len(r[0]))]
    return [[t[b][a] for b in range(len(t))] for a in range(len(t[0]))]


def harm(rng, dim, deep):
    pool = [[0], [2], [1], [3]] if dim == 1 else [[0, 0, 0], [1, 1, 0], [1, 1, 2], [2, 0, 2], [0, 1, 1]]
    w = rng.choice([F(1), F(1), F(2), F(1, 2)])
    ents, q, used = [], [], {}
    free = ([[0], [2], [4], [6], [8], [1], [3], [5]] if dim == 1 else P3 + [[2, 2, 2], [1, 2, 1], [2, 1, 1], [3, 3, 0]])
    rng.shuffle(free)
    ls = rng.sample(pool, rng.randint(1, 2))
    for l in ls:
        ts = []
        for _ in range(rng.randint(1, 2)):
            z = rng.choice(pool)
            exps = [[t for t in range(0, 4 if dim == 1 else 3) if t >= base(dim, l, a) - base(dim, z, a) and (t - base(dim, l, a) + base(dim, z, a)) % 2 == 0] for a in range(dim)]
            if dim == 1:
                exps = [[0]] + [[t for t in range(4) if t >= l[0] - z[0] and (t - l[0] + z[0]) % 2 == 0]]
            if not all(exps):
                continue
            c = [[F(0)]*4 for _ in range(1 if dim == 1 else 3)]
            for x in exps[0]:
                for y in exps[1]:
                    if rng.random() < .7:
                        # powers of the separation in units of the width
                        c[x][y] = F(rng.choice([-2, -1, 1, 1, 2, 3]), rng.choice([1, 2]))/(w**(x + y) if w > 1 else 1)
            if not any(v for r in c for v in r):
                c[exps[0][-1]][exps[1][-1]] = F(1)
            if not free:
                continue
            ql = free.pop()
            q.append(dict(l=ql, c=rats(c)))
            ts.append(dict(q=ql, z=z, c=rng.choice([[1, 1], [1, 1], [-1, 1], [1, 3], [2, 5]])))
        if ts:
            ents.append(dict(l=l, terms=ts))
    if not ents:
        return None
    zs = uniq(t['z'] for e in ents for t in e['terms'])
    nj = rng.choice([1, 2])
    mk = lambda: [[F(rng.randint(-2, 2), rng.choice([1, 1, 2])) for _ in range(nj)] for _ in range(1 if dim == 1 else nj)]
    m = []
    for z in zs:
        c = mk()
        c[0][0] = F(rng.choice([-2, -1, 1, 3]))
        tot = z[0] if dim == 1 else z[0] + z[1]
        m.append(dict(l=z, c=c, s=rng.choice([0, 2]) if tot % 2 == 0 else rng.choice([1, 3])))
    s = dict(kind='harm', dim=dim, w=fr(w), entries=ents, q=q, m=m, ops=[], seed=rng.randint(0, 9999), asobj=rng.random() < .3, kform=rng.choice(['one', 'dict']), qform=rng.choice(['one', 'dict']), ko=rng.random() < .6,
             grid=[1e-3, 1e3, 288] if dim == 1 else [4e-3, 2.5e2, 96])
    # without a separation grid, each windowed multipole is among those of the model;
    # otherwise large separations, where the errors of transforms grow with the window, are left out
    grow = max(t_ - base(dim, t['z'], a) for e in ents for t in e['terms'] for x in q if x['l'] == t['q'] for i_, r in enumerate(x['c']) for j_, v in enumerate(r) if v[0] for a, t_ in enumerate((i_, j_)) if t_) if any(v[0] for x in q for i_, r in enumerate(x['c']) for j_, v in enumerate(r) if i_ or j_) else -1
    if grow > 2:
        return None
    s['rc'] = rng.random() < .4 or grow >= 0 or any(e['l'] not in zs for e in ents)
    s['nr'] = s['grid'][2]*rng.choice([1, 1, 1.25])
    s['nr'] = int(s['nr'])
    kw = {} if dim == 1 else {}
    kw['extrap'] = rng.choice([0, 0, 1, 2])
    if rng.random() < .4:
        kw['pivot'] = rng.choice([.7, 1.4])
    if rng.random() < .3:
        kw['threaded'] = rng.random() < .5
    if rng.random() < .3:
        kw['lowring'] = rng.random() < .5
    if dim == 2 and rng.random() < .3:
        kw['extrap2d'] = True
    s['kw'] = kw
    s['warp'] = dim == 2 and rng.random() < .3
    s['more'] = rng.random() < .3
    # the size of the family
    nb = 1
    big = F(0)
    cur = {tuple(x['l']): x['c'] for x in m}
    for e in ents:
        for t in e['terms']:
            qc = next(x['c'] for x in q if x['l'] == t['q'])
            xc = image(dim, cur[tuple(t['z'])], t['z'])
            for x, r in enumerate(qc):
                for y, v in enumerate(r):
                    for j, rr in enumerate(xc):
                        for jj, u in enumerate(rr):
                            if v[0]:
                                for a, (tt, nn) in enumerate(((x, j), (y, jj))):
                                    d = tt + base(dim, t['z'], a) + 2*nn - base(dim, e['l'], a)
                                    if d < 0 or d % 2:
                                        return None
                                    nb = max(nb, d//2 + 1)
    if nb > 4:
        return None
    s['nb'] = nb
    for _ in range(rng.randint(1, 3)):
        x = rng.random()
        if not s['ops'] or x < .5:
            s['ops'].append(dict(op='conv', more=rng.random() < .4))
        elif x < .75:
            s['ops'].append(dict(op='scale', by=rng.choice([-2, 2, 3])))
        else:
            s['ops'].append(dict(op='add', m=[dict(l=z, c=rats(mk())) for z in zs]))
    if s['ops'][-1]['op'] != 'conv':
        s['ops'].append(dict(op='conv', more=False))
    for x in m:
        x['c'] = rats(x['c'])
    return s


def harm_ok(rng, dim, deep):
    while True:
        s = harm(rng, dim, deep)
        if s:
            return s


def ic(rng):
    keys = rng.sample(P3, rng.randint(1, 5))
    if rng.random() < .85 and MONO not in keys:
        keys[0] = MONO
    zkeys = uniq(keys + rng.sample(P3, rng.randint(0, 2)) if rng.random() < .5 else keys)
    if rng.random() < .4:
        zkeys = rng.sample(zkeys, rng.randint(1, len(zkeys)))
    approx = rng.random() < .3
    qform, zform = rng.choice(['one', 'dict']), rng.choice(['one', 'dict'])
    lo, hi = rng.choice([(F(1, 2), F(2)), (F(1), F(3)), (F(1), F(2)), (F(1, 2), F(5, 2))])
    common = [] if rng.random() < .5 and not approx else [fr(lo), fr(hi)]
    if not common and zform == 'one':
        ze = {tuple(l): (lo, hi) for l in zkeys}
    elif not common:
        ze = {tuple(l): rng.choice([(lo, hi), (lo, hi - F(1, 2)), (lo + F(1, 2), hi)]) for l in zkeys}
    else:
        ze = {tuple(l): (lo - (F(1, 4) if zform == 'dict' and rng.random() < .5 else 0), hi) for l in zkeys}
    q, m = [], []
    gq = grid(rng, F(1, 4), F(4), 9, False)
    for l in uniq(keys):
        n = rng.choice([1, 2])
        q.append(dict(l=l, c=rats(poly(rng, n, n)), g=[fr(v) for v in (gq if qform == 'one' else grid(rng, F(1, 4), F(4), 8, False))]))
    nz = rng.choice([7, 9])
    for l in uniq(zkeys):
        a = next((x for x in q if x['l'] == l), None)
        n = 1 if a and len(a['c']) > 1 else rng.choice([1, 2])
        m.append(dict(l=l, c=rats(poly(rng, n, n)), e=[fr(v) for v in ze[tuple(l)]], g=[fr(v) for v in grid(rng, *ze[tuple(l)], nz if zform == 'one' else rng.choice([5, 7, 9]), True)]))
    s = dict(kind='ic', q=q, m=m, qr=[x['l'] for x in q], zr=[x['l'] for x in m], qform=qform, zform=zform, common=common, nc=rng.choice([5, 9, 11]), approx=approx, cplx=rng.random() < .3, seed=rng.randint(0, 9999))
    if approx and (MONO not in s['qr'] or MONO not in s['zr']):
        return None
    if rng.random() < .1 and qform == 'dict' and len(q) > 1:
        s['qr'] = [x for x in s['qr'] if x != rng.choice(s['qr'])]
    if rng.random() < .1 and zform == 'dict' and len(m) > 1:
        s['zr'] = [x for x in s['zr'] if x != rng.choice(s['zr'])]

    def go():
        t = F(0)
        for x in m:
            y = next((a for a in q if a['l'] == x['l']), None)
            if y:
                e = [F(*v) for v in (common or x['e'])]
                t += weight(x['l'])*constraint(y['c'], x['c'], e)
                if max(abs(t.numerator), t.denominator) > 2**22:
                    raise rat.Big
        if MONO in [x['l'] for x in q] and MONO in [x['l'] for x in m]:
            e = [F(*v) for v in (common or next(x['e'] for x in m if x['l'] == MONO))]
            d = constraint([[[1, 1]]], next(x['c'] for x in q if x['l'] == MONO), e)
            if d == 0 or max(abs(d.numerator), d.denominator) > 2**20:
                raise rat.Big
            constraint([[[1, 1]]], [[[3, 2]]], e)
            v = t/d
            if abs(d) < F(1, 20)*abs(t):
                raise rat.Big
    return s if rat.fits(go) else None


def ic_ok(rng):
    while True:
        s = ic(rng)
        if s:
            return s


def place(rng, deep):
    pool = rng.sample(P3[:8], rng.randint(1, 3))
    withic = rng.random() < .4
    if withic and MONO not in pool:
        pool[0] = MONO
    ents = entries(rng, pool, withic)
    if withic:
        ents[0]['terms'] += [dict(q=MONO, z=MONO, c=[1, 1])]
    # no entry of the formulae vanishes
    if any(all(sum(F(*t['c']) for t in e['terms'] if (t['q'], t['z']) == p) == 0 for p in [(t['q'], t['z']) for t in e['terms'] if t['z'] != IC]) for e in ents):
        return place(rng, deep)
    needq = uniq(t['q'] for e in ents for t in e['terms'])
    needz = uniq(t['z'] for e in ents for t in e['terms'] if t['z'] != IC)
    ex = rng.choice([0, 0, 1, 2, 3])
    kform = rng.choice(['one', 'dict'])
    nmax = 6 if not deep else 9
    n1 = rng.randint(4, nmax)
    if ex:
        n1 = max(2*(n1//2), 4)
    size = []
    for z in needz:
        n = n1 if kform == 'one' else rng.choice([4, 6, 8] if ex else [4, 5, 6, 7])
        size.append(dict(l=z, n=n, lo=.1, hi=10.) if kform == 'one' else dict(l=z, n=n, lo=rng.choice([.05, .1]), hi=rng.choice([8., 12.])))
    rc = rng.random() < .5 or any(e['l'] not in needz for e in ents) or kform == 'dict'
    kw = dict(extrap=ex)
    if rng.random() < .3:
        kw['threaded'] = True
    if rng.random() < .3:
        kw['extrap2d'] = True
    if rng.random() < .3:
        kw['pivot'] = .7
    nr = rng.choice([6, 8])
    ko = rng.random() < .7
    nk = rng.randint(2, 4) if ko else (nr if rc else min(x['n'] for x in size))
    diag, concat = rng.random() < .5, rng.random() < .5
    P = rng.choice([1, 2, 2, 3, 4, 5])
    s = dict(kind='place', entries=ents, size=size, nk=nk, ko=ko, diag=diag, concat=concat, kform=kform, rc=rc, nr=nr, kw=kw, ic=withic and rng.random() < .6, qs=needq, zorder=needz, np=P, root=rng.randrange(P), seed=rng.randint(0, 9999), asobj=rng.random() < .3, ask=[],
             warp=rng.random() < .25)
    for _ in range(14):
        z = rng.choice(size)
        x = rng.randint(1, nk)
        s['ask'].append(dict(z=z['l'], a=rng.randint(1, z['n']), b=rng.randint(1, z['n']), l=rng.choice(ents)['l'], x=x, y=x if diag else rng.randint(1, nk)))
    return s


REFUSE = ['name', 'linear power', 'linear power, one of two', 'linear common power', 'linear common bispectrum', 'missing power', 'missing bispectrum', 'shape', 'shape diag', 'shape 2']
STRIP = dict(conf=['kind', 'dim', 'entries', 'qs', 'qr', 'zk', 'rin', 'rout', 'q', 'z', 'm', 'pts', 'ops'], harm=['kind', 'dim', 'w', 'entries', 'q', 'm', 'ops', 'nb'], ic=['kind', 'q', 'm', 'qr', 'zr', 'common', 'approx'],
             place=['kind', 'entries', 'size', 'ask', 'nk', 'diag', 'concat'])
TOL = {1: 2e-2, 2: 4e-2}


def strip(s):
    t = {k: s[k] for k in STRIP[s['kind']]}
    drop = lambda x: {k: v for k, v in x.items() if k not in ('g', 'lo', 'hi', 'more', 'omit')}
    for k in ('q', 'z', 'm', 'ops', 'size'):
        if k in t:
            t[k] = [drop(x) for x in t[k]]
    return t


def run(ctx):
    ctx.build(ext=True)
    rng = ctx.rng
    nm = ctx.oracle('Formulae', [dict(kind='named', name='wilson'), dict(kind='named', name='sugiyama')], cfgx='INVARIANT Emit\n')
    named = [dict(full=f, entries=[dict(l=l, terms=ts) for l, ts in zip(n['r']['l'], n['r']['terms'])]) for f, n in zip(['wilson+16', 'sugiyama+19'], nm)]
    deep = ctx.tier != 'quick'
    sc = [conf_ok(rng, named) for _ in range(ctx.pick(260, 3000))]
    sc += [harm_ok(rng, 1, deep) for _ in range(ctx.pick(70, 800))]
    sc += [harm_ok(rng, 2, deep) for _ in range(ctx.pick(45, 500))]
    sc += [ic_ok(rng) for _ in range(ctx.pick(120, 1500))]
    sc += [place(rng, deep) for _ in range(ctx.pick(40, 400))]
    exp = ctx.oracle('WinConv', [strip(s) for s in sc], cfgx=INV)
    for s, o in zip(sc, exp):
        if s['kind'] == 'harm':
            h = iter(o['h'])
            for op in s['ops']:
                if op['op'] == 'conv':
                    op['exp'] = next(h)['p']
        elif s['kind'] == 'place':
            s['exp'] = o
    alone = [dict(kind='refuse', what=w) for w in REFUSE]
    alone += [dict(kind='refuse', what='tasks', args=a) for a in ([0, 2], [3, 0], [-1, 2], [3, -2], [2.5, 2], [3, 1.5], ['3', 2])]
    tk = [dict(kind='tasks', n=rng.choice([rng.randint(1, 12), rng.randint(1, 60)]), np=rng.randint(1, 9), np64=rng.random() < .5, form=rng.choice(['total', 'list'])) for _ in range(ctx.pick(120, 600))]
    res = ctx.drive('d_winconv.py', sc + alone + tk, procs=8, timeout=800)
    logs = []
    for s, g, o in zip(sc + alone + tk, res, exp + [None]*(len(alone) + len(tk))):
        k = s['kind']
        ctx.traces += 1
        ctx.act(k + (str(s['dim']) if 'dim' in s else '') + (':refused' if o and o.get('ok') is False else ''))
        if 'crash' in g:
            ctx.violation(f'{k}:crash', f'{k} failed: {g["crash"]}', [s, g])
            continue
        if k == 'conf':
            judge_conf(ctx, s, g, o)
        elif k == 'harm':
            j = 0
            for h in g['h']:
                for l, e, _ in h['err']:
                    if not e <= TOL[s['dim']]:
                        ctx.violation(f'harm{s["dim"]}:value', f'windowed spectrum {l} differs from the exact one by {e:.3g} of its maximum', [s, g])
                if not (h['pure'] and g['kw']):
                    ctx.violation('harm:input', 'convolution modified its input', [s, g])
                if not h['ko'] or not h['xi'] or h['n'] < 3:
                    ctx.violation('harm:points', 'output sample points are not those asked for', [s, g])
        elif k == 'ic':
            if g['ok'] != o['ok']:
                ctx.violation('ic:refused', f'integral constraint {"computed" if g["ok"] else "refused"}: {g}', [s, g, o])
            elif o['ok']:
                w = o['v'][0]/o['v'][1]
                if not abs(g['v'] - w) <= 1e-8*max(1, abs(w)):
                    ctx.violation('ic:value', f'integral constraint {g["v"]} instead of {w}', [s, g, o])
        elif k == 'refuse':
            if g['ok']:
                ctx.violation(f'refuse:{s["what"]}', f'{s["what"]} {s.get("args", "")} was accepted', s)
        elif k == 'tasks':
            logs.append((s, g['log'], 'tasks'))
            if g['a'] != [len(x) for x in g['log']]:
                ctx.violation('tasks:form', f'allocation {g["a"]} but segments of {[len(x) for x in g["log"]]}', [s, g])
        else:
            bad = None
            if o['shape'] != g['shape'] or (g['poles'] is not None and uniq(e['l'] for e in s['entries']) != uniq(g['poles'])):
                bad = ('shape', f'matrix of shape {g["shape"]} (multipoles {g["poles"]}) instead of {o["shape"]}')
            elif not g['err'] <= 1e-9:
                bad = ('entry', f'matrix entry differs from the convolution of the unit model: {g["where"]}')
            elif not g['apply'] <= 1e-4:  # rounding, magnified by extrapolation; entries are compared closely above
                bad = ('apply', f'matrix times model differs from the convolution by {g["apply"]:.3g}')
            elif not g['again']:
                bad = ('again', 'matrix generated again differs')
            elif g['par']:
                bad = ('processes', f'{s["np"]} processes: {g["par"]}')
            elif g['others']:
                bad = ('others', f'processes {g["others"]} other than the root return a matrix')
            if bad:
                ctx.violation(f'matrix:{bad[0]}', bad[1], [s, g, o])
            elif any(g['log']):
                logs.append((s, [[c or 0 for c in x] for x in g['log']], 'matrix'))
    # the recorded runs are behaviours in which every column is computed exactly once
    split = [dict(kind='split', np=len(l), n=s['n'] if w == 'tasks' else s['exp']['shape'][1], log=l, free=w == 'tasks' and s['n'] <= 8 and s['np'] <= 3) for s, l, w in logs]
    for (s, l, w), o in zip(logs, ctx.oracle('WinConv', split, cfgx='INVARIANT Emit\n')):
        ctx.traces += 1
        if not o['ok'] or not o['order'] or (w == 'tasks' and not o['even']) or (w == 'tasks' and len(l) != s['np']):
            ctx.violation(f'split:{w}', f'columns {l} of {len(l)} processes: missing {o["missing"]}, in order {o["order"]}, evenly {o["even"]}', [s, l, o])
    ctx.sample(sc[0])
    ctx.sample(sc[-1])
    ctx.assumptions += ['sample grids resolve the functions transformed; values compared inside the ranges covered by window and model',
                        'processes are forked processes with an in-memory communicator that has the collective calls of mpi4py (mpi4py is not installed)']


def judge_conf(ctx, s, g, o):
    if g['ok'] != o['ok']:
        ctx.violation('conf:refused', f'configuration {"accepted" if g["ok"] else "refused: " + g["err"]} (formulae need otherwise)', [s, g, o])
        return
    if not g['ok']:
        return
    nm = lambda ls: sorted(','.join(map(str, l)) for l in ls)
    flat = lambda x: sorted(''.join(c for c in t if c.isdigit() or c == ',') for t in x)
    for a, b in (('win', 'window'), ('cf', 'model')):
        if flat(g[a]) != nm(o[a]):
            ctx.violation(f'conf:coverage:{b}', f'warned of {b} samples not covering {g[a]} instead of {o[a]}', [s, g, o])
    if not g['kept']:
        ctx.violation('conf:input', 'window samples or points were modified', [s, g])
    for h, e in zip(g['h'], o['h']):
        if h['ok'] != e['ok']:
            ctx.violation('conf:ic refused', f'convolution {"went on without" if h["ok"] else "refused"} an integral constraint: {h}', [s, h, e])
            continue
        if not e['ok']:
            continue
        if sorted(h['l']) != sorted(e['l']):
            ctx.violation('conf:multipoles', f'multipoles {h["l"]} instead of {e["l"]}', [s, h, e])
            continue
        if not h['pure']:
            ctx.violation('conf:model', 'the model was modified', [s, h])
        if not h['pts']:
            ctx.violation('conf:points', 'output points are not those asked for', [s, h])
        for l, v in zip(h['l'], h['v']):
            w = e['v'][e['l'].index(l)]
            if [len(r) for r in v] != [len(r) for r in w]:
                ctx.violation('conf:shape', f'{l}: shape', [s, h, e])
                continue
            top = max([1.] + [abs(x[0]/x[1]) for r in w for x in r if x[1]])
            bad = [(a, b, v[a][b], x) for a, r in enumerate(w) for b, x in enumerate(r) if x[1] and not abs(v[a][b] - x[0]/x[1]) <= 1e-7*top]
            if bad:
                a, b, x, y = bad[0]
                ctx.violation(f'conf{s["dim"]}:value', f'windowed multipole {l} at {a}, {b} is {x} instead of {y[0]}/{y[1]}', [s, h, e])
            ctx.act('values', sum(1 for r in w for x in r if x[1]))
