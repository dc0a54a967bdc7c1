"""C19: coupling coefficients, spherical harmonics and spherical Bessel functions against Angular.tla."""
import math

INV = 'INVARIANT Emit\nINVARIANT Symmetric\nINVARIANT Small\nINVARIANT Unsold\nINVARIANT Parity\nINVARIANT Square\n'
PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43]


def root(num, exp):
    """num times the square root of the product of prime powers."""
    return num*math.exp(.5*sum(e*math.log(p) for e, p in zip(exp, PRIMES)))


def couples(ctx):
    rng = ctx.rng
    top = ctx.pick(4, 6)
    tri = [(a, b, c) for a in range(top + 1) for b in range(top + 1) for c in range(top + 1)]
    tri += [tuple(rng.randint(0, 10) for _ in range(3)) for _ in range(ctx.pick(60, 600))]
    out = []
    for l in tri:
        ms = [(x, y, -x - y) for x in range(-l[0], l[0] + 1) for y in range(-l[1], l[1] + 1) if abs(x + y) <= l[2]]
        if len(ms) > 60:
            ms = rng.sample(ms, 60)
        ms += [tuple(rng.randint(-k, k) for k in l) for _ in range(4)] + [(0, 0, 0)]
        out.append(dict(kind='couple', l=list(l), m=[list(m) for m in ms]))
    return out


def harmonics(ctx):
    rng = ctx.rng
    out = []
    for l in range(7):
        r = 3 if l < 5 else 2 if l < 6 else 1
        for m in range(-l, l + 1):
            vs = [[0, 0, 0], [1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1], [1, 1, 0], [-1, -1, 0], [1, -1, 0], [0, 1, -1], [-1, 1, 1], [1, 1, 1]]
            vs += [[rng.randint(-r, r) for _ in range(3)] for _ in range(ctx.pick(12, 60))]
            sc = [1 if rng.random() < .3 else 10**rng.uniform(-6, 4) for _ in vs]
            out.append(dict(kind='ylm', l=l, m=m, v=vs, pos=[[x*a for x in v] for v, a in zip(vs, sc)]))
    for _ in range(ctx.pick(80, 800)):
        l = rng.randint(0, 4)
        n = [rng.choice([1, 2, 3, 4, 5]) for _ in range(3)]
        q = [rng.choice([1, 1, 2]) for _ in range(3)]
        if l == 4:
            q = [1, 1, 1]
        sp = rng.choice(['fourier', 'config'])
        h = 10**rng.uniform(-2, 3)
        box = [h/x for x in q] if sp == 'fourier' else [h*x*k for x, k in zip(q, n)]
        out.append(dict(kind='mesh', l=l, m=rng.randint(-l, l), n=n, q=q, space=sp, box=box))
    return out


def bessels(ctx):
    rng = ctx.rng
    xs = [0, .001, .02, .025, .05, .3, 1, 999.97, 999.999, 1000, 1000.01, 1234.5, 6500]
    return [dict(kind='bessel', l=l, x=xs + [rng.uniform(0, 30) for _ in range(ctx.pick(40, 400))] + [10**rng.uniform(-3, 4) for _ in range(ctx.pick(40, 400))]) for l in range(8)]


def orders(ctx):
    rng = ctx.rng
    out = []
    for l in rng.sample(range(8, 31), 3) + rng.sample(range(31, 46), 3) + [32]:
        t = max(1000, l*l)
        out.append(dict(kind='order', l=l, x=[0, .3, 1., float(l), 999.97, 1000., 1000.01, t - .03, t - 1e-9, float(t), t + .01, 3.7*t] + [rng.uniform(0, 1.2*t) for _ in range(ctx.pick(40, 400))] + [rng.uniform(0, 2*l) for _ in range(20)]))
    return out


def gammas(ctx):
    rng = ctx.rng
    out = []
    for _ in range(ctx.pick(300, 3000)):
        z = [rng.choice([2, 4, 4, 2, 1, 3, 7]) + 4*rng.choice([0, 0, 0, -1, -2, -5]), rng.choice([0, 0, 1, -1, 2, 3, 8, -11, 20])]
        if z[1] == 0 and z[0] <= 0 and z[0] % 4 == 0:
            z[0] += 1
        out.append(dict(kind='gamma', z=z, l=rng.randint(1, 12)))
    return out


def gamma(s, st, g):
    """What is wrong with values of the gamma function."""
    at, up, conj, log, ratio = (complex(*x) for x in zip(g['re'], g['im']))
    rise = 1
    for f in st['f']:
        rise *= complex(*f)/4
    x, y = (v/4 for v in s['z'])
    off = lambda a, b: not abs(a - b) <= 1e-11*abs(b)
    if off(up, at*rise):
        return f'{up} at {x + s["l"]}+{y}i, not {rise} times {at} at {x}+{y}i'
    if off(conj, at.conjugate()):
        return f'{conj} and {at} at conjugate points {x}+-{y}i'
    if off(log, up):
        return f'{log} from its logarithm, {up} at {x + s["l"]}+{y}i'
    # ratios of gammas at mirrored points
    if off(ratio, up/at.conjugate()):
        return f'ratio {ratio}, not {up/at.conjugate()}, from {x}+{-y}i to {x + s["l"]}+{y}i'
    # known values: squared moduli where the real part is a half or one
    for base, mod in ((.5, math.pi/math.cosh(math.pi*y)), (1., math.pi*y/math.sinh(math.pi*y) if y else 1.)):
        n = x - base
        if n == int(n):
            w = mod
            for j in range(int(n)):
                w *= abs(complex(base + j, y))**2
            for j in range(int(-n)):
                w /= abs(complex(base - 1 - j, y))**2
            if off(abs(at)**2, w) or y == 0 and (abs(at.imag) > 1e-12*abs(at) or at.real < 0) != (x < 0 and math.floor(x) % 2 == 1):
                return f'{at} at {x}+{y}i, of squared modulus {w}'
    return ''


def climb(st, x):
    from mpmath import mp, mpf, sin, cos
    mp.dps = 500
    y = mpf(x)
    a, b = cos(y)/y, sin(y)/y
    for f in st['f']:
        a, b = b, f*b/y - a
    return float(b)


def bessel(st, x):
    from mpmath import mp, mpf, sin, cos
    mp.dps = 80
    y = mpf(x)
    if x == 0:
        return None
    return float(sum(c*sin(y)/y**(n + 1) for n, c in enumerate(st['s'])) + sum(c*cos(y)/y**(n + 1) for n, c in enumerate(st['c'])))


def run(ctx):
    ctx.build(cpp=True)
    h = ctx.compile_harness('h_angular.cpp')
    scen = couples(ctx) + harmonics(ctx) + bessels(ctx) + orders(ctx) + gammas(ctx)
    keep = {'couple': ('kind', 'l', 'm'), 'ylm': ('kind', 'l', 'm', 'v'), 'mesh': ('kind', 'l', 'm', 'n', 'q'), 'bessel': ('kind', 'l'), 'order': ('kind', 'l'), 'gamma': ('kind', 'z', 'l')}
    exp = ctx.oracle('Angular', [{k: s[k] for k in keep[s['kind']]} for s in scen], cfgx=INV)
    res = ctx.drive(h, scen, procs=8)
    for s, o, g in zip(scen, exp, res):
        st, kind = o['st'], s['kind']
        if 'exception' in g or 'crash' in g:
            ctx.violation(f'{kind}:crash', f'{s}: {g}', s)
            continue
        if kind == 'couple':
            if bool(g['dead']) != st['dead']:
                ctx.violation('couple:vanishing', f'multipole {s["l"]} is {"rejected" if g["dead"] else "accepted"} although its coupling is {"non-zero" if not st["dead"] else "zero"}', [s])
            two = iter(g['c2'])
            for t, w, c in zip(st['t'], g['w'], g['c3']):
                ctx.traces += 1
                if t['vanish']:
                    want, wc = (0 if t['num'] == 0 else root(t['num'], t['exp'])), 0
                else:
                    want = root(t['num'], t['exp'])
                    wc = t['deg']*want*root(t['num0'], t['exp0'])
                ctx.act('couple:zero' if t['vanish'] else 'couple:value')
                if abs(w - want) > 1e-11 or abs(c - wc) > 1e-11*t['deg']:
                    ctx.violation('couple:value', f'degrees {s["l"]}, orders {t["m"]}: 3-j symbol {w}, coupling {c}; exact {want}, {wc}', [s, t, w, c])
                if s['l'][1] == 0 and t['m'][1] == 0 and abs(next(two) - wc) > 1e-11*t['deg']:
                    ctx.violation('couple:2pt', f'degrees {s["l"]}, orders {t["m"]}: two-point coupling is not {wc}', [s, t])
        elif kind == 'gamma':
            ctx.traces += 1
            ctx.act(kind)
            bad = gamma(s, st, g)
            if bad:
                ctx.violation('gamma:value', f'gamma function: {bad}', [s, g])
        elif kind in ('ylm', 'mesh'):
            f = math.sqrt(st['pref'][0]/st['pref'][1])/2**s['l']
            for j, y in enumerate(st['y']):
                ctx.traces += 1
                d = f/y['n2']**(s['l']/2)
                wr, wi = y['z'][0]*d, y['z'][1]*d
                if math.hypot(g['re'][j] - wr, g['im'][j] - wi) > 2e-7:
                    at = f'direction {s["pos"][j]}' if kind == 'ylm' else f'cell {j} of mesh {s["n"]} in {s["space"]} box {s["box"]}'
                    ctx.violation(f'{kind}:value', f'reduced harmonic l={s["l"]} m={s["m"]} at {at} is {g["re"][j]}+{g["im"][j]}i, exact {wr}+{wi}i', [s, j])
                    break
            ctx.act(kind)
        else:
            for x, v, c in zip(s['x'], g['j'], g['copy']):
                ctx.traces += 1
                w = (bessel if kind == 'bessel' else climb)(st, x) if x else float(s['l'] == 0)
                if abs(v - w) > (5e-5 if x < .3 else 2e-6) or v != c:      # natural spline near the origin
                    ctx.violation(f'{kind}:value', f'j_{s["l"]}({x}) = {v}, copy {c}, exact {w}', [s['l'], x])
                    break
            ctx.act(kind)
    ctx.sample({k: v for k, v in scen[40].items()})
