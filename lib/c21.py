"""C21: Hankel-type transforms and resampling against Hankel.tla."""
import math
from fractions import Fraction as F
import rat

INV = ''.join(f'INVARIANT {x}\n' for x in ['Emit', 'Runs', 'TwoWay', 'DKept', 'Ends', 'Grows', 'Middle', 'Whole', 'Straight'])
NAMES = {1: ['forward', 1], -1: ['backward', -1]}


def fr(x):
    return [x.numerator, x.denominator]


def coefs(rng, ell, n):
    mk = lambda m: [fr(F(rng.randint(-3, 3), rng.choice([1, 1, 2, 4]))) for _ in range(m)]
    c = [mk(n[-1]) for _ in range(n[0] if len(ell) == 2 else 1)]
    c[0][0] = fr(F(rng.choice([-2, -1, 1, 3])))
    return c


def gauss(rng, big):
    dim = rng.choice([1, 1, 2])
    ell = [rng.randint(0, 5 if dim == 1 else 4) for _ in range(dim)]
    n = [rng.randint(1, 3 if dim == 1 else 2) for _ in range(dim)]
    w = rng.choice([F(1), F(1), F(2), F(1, 2), F(3, 2)])
    q = [rng.choice([0, 0, 0, 1, -1]) if dim == 1 else 0 for _ in range(dim)]
    # a function of offset o is transformed with bias -o
    o = [-x for x in q]
    if ell[0] + min(o + [-x for x in o]) < 0:
        q, o = [0]*dim, [0]*dim
    lowring = rng.random() < .7
    piv = rng.choice([1., 1., .5, 2., 1.3])
    s = dict(kind='gauss', ell=ell, w=fr(w), o=o, c=coefs(rng, ell, n), ops=[], asint=rng.choice(['array', 'array', 'list']),
             grid=[1e-4, 1e4, rng.choice([224, 256])] if dim == 1 else [3e-4, 3e3, rng.choice([144, 160])])
    length = rng.randint(1, 4)
    side, ph = 0, 0
    cur = list(o)
    for j in range(length):
        if j and rng.random() < .3:
            s['ops'].append(dict(op='scale', by=rng.choice([-2, -1, 2, 3])))
        if j and rng.random() < .3:
            s['ops'].append(dict(op='add', c=coefs(rng, ell, n)))
        d = rng.choice([0, 1, -1]) if rng.random() < .5 else (1 if side == 0 else -1)
        # extrapolation supposes real samples
        # (and those beyond zeros continue the rounding errors of previous steps)
        ex = rng.choice([0, 1, 2, 3] if j == 0 else [0, 1]) if ph % 2 == 0 else 0
        if j == 0 and dim == 1 and rng.random() < .25:
            # power laws at both ends: positive samples which do not vanish
            ex = rng.choice([4, 4, 5])
            s['c'] = [[[abs(x[0]), x[1]] for x in r] for r in s['c']]
            s['grid'][1] = 20/float(w)
        kw = dict(pivot=piv, lowring=lowring)
        if ex:
            kw['extrap'] = ex
            if rng.random() < .5:
                kw['extrap_exp'] = rng.choice([1.5, 2., 3.])
            if dim == 1:
                kw['extrap_layer'] = rng.choice(['native', 'outer']) if ex < 5 else 'outer'
            else:
                kw['extrap2d'] = rng.random() < .5
        if rng.random() < .3:
            kw['threaded'] = True
        s['ops'].append(dict(op='t', dir=d, name=rng.choice(NAMES[d]) if d else 0, q=[-x for x in cur], kw=kw, again=rng.random() < .5))
        cur = [-x for x in cur]
        ph += (d*sum(ell)) % 2
        side = 1 - side
        if ex >= 4:
            # further points start where the functions do not vanish
            break
        # the points of the two dimensions differ: no further transform of both
        if dim == 2 and ell[0] != ell[1] and lowring:
            break
    return s


def disc(rng, big):
    hankel = rng.random() < .6
    dim = 1 if hankel else rng.choice([1, 1, 2])
    n = rng.randint(3, 24 if dim == 1 else 8)
    # without the low-ringing condition the highest mode of an even number of samples is not kept
    lowring = rng.random() < .6 or (not hankel and n % 2 == 0)
    vec = lambda: [rng.randint(-9, 9) for _ in range(n)]

    def smooth(v):
        if not lowring and n % 2 == 0:
            v[-1] += sum(x*(-1)**j for j, x in enumerate(v))
        return v
    s = dict(kind='disc', hankel=hankel, dim=dim, a=smooth(vec()), lowring=lowring, x0=rng.choice([-3., 0., 1.5]), dl=rng.choice([.012, .021, .03, .047, .13, .3, .43, .5]),
             mu=rng.choice([0., .5, 1., 1.5, 2.5, 4.]), q=rng.choice([0, 0, .25, -.25, .4]) if hankel else rng.choice([0, 0, 1, -1]), dir=rng.choice([1, -1]), threaded=rng.random() < .3,
             ell=[rng.randint(1, 4)]*2 if dim == 2 else [rng.randint(1, 5)], pivot=rng.choice([1., .7, 3.] + ([0.] if lowring else [])), ops=[], chain=rng.random() < .5)
    if dim == 2:
        s['row'] = smooth([rng.randint(1, 9) for _ in range(n)])
    side = 0
    for _ in range(rng.randint(2, 7)):
        w = rng.random()
        if w < .5:
            s['ops'].append(dict(op='inv' if side else 't'))
            side = 1 - side
        elif w < .65:
            s['ops'].append(dict(op='scale', by=rng.choice([-3, -1, 2])))
        elif w < .85 or not hankel:
            s['ops'].append(dict(op='add', v=smooth(vec())))
        else:
            s['ops'].append(dict(op='shift', by=rng.randint(-n, n)))
    return s


def resample(rng, big):
    dim = rng.choice([1, 2])
    rule = rng.choice(['lin', 'lglin'])
    s = dict(kind='resample', rule=rule, x=[], n=[], ratio=[], k=rng.choice([1, 2, 3, 3, 3]), form=rng.choice(['pair', 'pair', 'list', 'one', 'array']))
    if dim == 1:
        s['form'] = rng.choice(['pair', 'list'])
    same = None
    for d in range(dim):
        ratio = rng.choice([F(2), F(3, 2), F(4, 3), F(3)])
        n = rng.randint(2, 5)
        lo = F(rng.randint(1, 4), rng.choice([1, 2]))
        hi = lo*ratio**(n - 1) if rule == 'lglin' else lo + rng.randint(2, 12)
        m = rng.randint(5, 9)
        den = 12
        mid = set()
        while len(mid) < m - 2:
            z = lo + (hi - lo)*F(rng.randint(1, den*4 - 1), den*4)
            mid.add(z)
        if d == 1 and s['form'] in ('one', 'array'):
            if s['form'] == 'one':
                s['x'].append(s['x'][0])
                s['ratio'].append(s['ratio'][0])
                s['n'].append(s['n'][0])
                continue
            while len(mid) > len(s['x'][0]) - 2:
                mid.pop()
            while len(mid) < len(s['x'][0]) - 2:
                mid.add(lo + (hi - lo)*F(rng.randint(1, den*8 - 1), den*8))
        s['x'].append([fr(z) for z in [lo] + sorted(mid) + [hi]])
        s['ratio'].append(fr(ratio))
        s['n'].append(n)
    deg = [rng.randint(0, min(s['k'], 2 if dim == 2 else 3)) for _ in range(dim)]
    s['c'] = [[rng.randint(-3, 3) for _ in range(deg[-1] + 1)] for _ in range(deg[0] + 1 if dim == 2 else 1)]
    if rule == 'lin' and rng.random() < .2:
        s['size'], s['n'] = None, [len(p) for p in s['x']]
    elif dim == 2 and len(set(s['n'])) > 1:
        s['size'] = s['n']
    else:
        s['size'] = s['n'][0] if rng.random() < .5 or dim == 1 else s['n']
    return s


def values(s):
    pts = []
    for a in range(len(s['x'])):
        lo, hi = F(*s['x'][a][0]), F(*s['x'][a][-1])
        n = s['n'][a]
        pts.append([rat.add(lo, rat.mul(rat.add(hi, -lo), F(j, n - 1))) if s['rule'] == 'lin' else rat.mul(lo, rat.power(F(*s['ratio'][a]), j)) for j in range(n)])
    for x in pts[0] if len(pts) == 2 else [F(0)]:
        for y in pts[-1]:
            rat.horner([rat.horner([F(v) for v in r], y) for r in s['c']], x)


def resample_ok(rng, big):
    while True:
        s = resample(rng, big)
        if rat.fits(values, s):
            return s


def size(rng, big):
    n = rng.randint(4, 40)
    s = dict(kind='size', dim=rng.choice([1, 1, 2]), n=n, len=n if rng.random() < .9 else n + rng.choice([-2, -1, 1, 5]), extrap=rng.choice([0, 0, 1, 2, 3, 4, 5]), num=rng.choice([1, 2, 2, 3, 4]), den=rng.choice([1, 1, 2]),
             layer=rng.choice(['native', 'outer']), log=rng.random() < .93, dirok=rng.random() < .93, lowring=rng.random() < .6, pivot=rng.choice([1., 1., .5, 0.]), ell=rng.randint(0, 4))
    if rng.random() < .06:
        s['extrap'] = rng.choice([-1, 6, 7])
    if rng.random() < .06 and s['dim'] == 1 and s['extrap']:
        s['layer'] = 'none'
    if s['num'] < s['den']:
        s['num'], s['den'] = 1, 1
    if s['extrap'] in (4, 5) and s['n'] < 10:
        s['extrap'] = 3
    if s['extrap'] in (4, 5):
        # power laws through both rows and columns
        s['dim'] = 1
        if s['extrap'] == 5:
            s['layer'] = 'outer' if s['layer'] == 'native' else s['layer']
    return s


def ext(rng, big):
    dim = rng.choice([1, 1, 2])
    n = 2*rng.randint(4 if dim == 2 else 5, 8)
    s = dict(kind='ext', dim=dim, n=n, extrap=rng.choice([1, 2, 3, 4, 4, 5]), num=rng.choice([2, 3, 4, 5]), den=rng.choice([1, 2]), line=[], layer=rng.choice(['native', 'outer']), x0=rng.choice([-3., 0., 1.]), dl=rng.choice([.1, .3, .47]),
             pivot=rng.choice([1., .5, 3.]), lowring=rng.random() < .7, ell=[rng.randint(0, 4) for _ in range(dim)], dir=rng.choice([0, 1, -1]), q=rng.choice([0, 0, 1, -1]))
    if s['extrap'] == 5:
        s['n'] = n = max(n, 14)
        s['layer'] = 'outer'
    if s['extrap'] == 4 and dim == 2 and s['layer'] == 'native':
        s['layer'] = 'outer'  # intermediate samples have no definite sign in floating point
    if s['ell'][0] == 0:
        s['q'] = 0
    for _ in range(dim):
        if s['extrap'] in (1, 2, 3):
            v = [rng.randint(-9, 9) for _ in range(n)]
            v[0] = v[0] or 1
        else:
            sg = rng.choice([1, -1])
            a, b = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
            if s['extrap'] == 5:
                p = rng.randint(6, n - 7)
                v = [[sg, -(a*(p - j) if j < p else b*(j - p))] for j in range(n)]
            else:
                v = [[sg, 0]]
                for j in range(1, n):
                    v.append([sg, v[-1][1] + rng.choice([-1, 0, 1])])
                if rng.random() < .1:
                    v[-1][0] = rng.choice([0, -sg])
                    if dim == 1 and rng.random() < .5:
                        v[0][0] = v[-1][0]
        s['line'].append(v)
    return s


def run(ctx):
    ctx.build(ext=True, cpp=True)
    h = ctx.compile_harness('h_hankel.cpp')
    rng = ctx.rng
    sc = []
    for fn, n, m in ((gauss, 260, 3000), (disc, 260, 3000), (resample_ok, 200, 3000), (size, 220, 3000), (ext, 200, 3000)):
        sc += [fn(rng, ctx.tier != 'quick') for _ in range(ctx.pick(n, m))]
    strip = lambda s: {k: ([{a: b for a, b in o.items() if a in ('op', 'dir', 'q', 'by', 'v', 'c')} for o in v] if k == 'ops' else int(v*4) if k == 'pivot' else v)
                       for k, v in s.items() if k in ('kind', 'ell', 'w', 'o', 'c', 'ops', 'a', 'hankel', 'x', 'n', 'ratio', 'rule', 'extrap', 'num', 'den', 'layer', 'log', 'len', 'dirok', 'lowring', 'pivot', 'line')}
    exp = ctx.oracle('Hankel', [strip(s) for s in sc], cfgx=INV)
    for s, o in zip(sc, exp):
        if 'h' in o:
            s['exp'] = o['h']
        elif s['kind'] == 'ext':
            s['exp'] = o
    res = ctx.drive('d_hankel.py', sc, procs=8)
    cc = [s for s in sc if (s['kind'] == 'gauss' and len(s['ell']) == 1 and not any(op.get('kw', {}).get('extrap_layer') == 'outer' for op in s['ops'])) or (s['kind'] == 'disc' and s['dim'] == 1)]
    rcc = ctx.drive(h, cc, procs=8)
    for cpp, s, g, o in [(0, *z) for z in zip(sc, res, exp)] + [(1, s, g, None) for s, g in zip(cc, rcc)]:
        ctx.traces += 1
        name = s['kind'] + (f"{len(s['ell'])}" if s['kind'] == 'gauss' else '') + (' compiled' if cpp else '')
        if 'driver_error' in g or 'crash' in g or g.get('err'):
            if not (s['kind'] in ('size', 'ext') and 'crash' not in g and 'driver_error' not in g):
                ctx.violation(f'{name}:crash', f'{name} failed: {g}', [s, g])
                continue
        if s['kind'] in ('gauss', 'disc'):
            bad = None
            for op, r in zip(s['ops'], g['steps']):
                ctx.act(f"{name}:{op['op']}" + (f":extrap{op['kw'].get('extrap', 0)}" if op.get('kw') else ''))
                if s['kind'] == 'gauss':
                    tol = TOL[len(s['ell'])]*(10 if any(s['o']) else 1)
                    what = None
                    if not r['err'] <= tol:
                        what = ('value', f'differs from the exact transform by {r["err"]:.3g} of its maximum')
                    elif op['op'] == 't':
                        if not r['same']:
                            what = ('input', 'modified its input')
                        elif not r['again']:
                            what = ('reuse', 'gives another result when used again')
                        elif not r['grid'] or any(m != s['grid'][2] for m in r['n']):
                            what = ('points', f'returned {r["n"]} points for {s["grid"][2]}')
                        elif not r['rec'] <= 1e-9:
                            what = ('points', f'returned points which are not reciprocal to the samples\' ({r["rec"]:.3g})')
                        elif not r['near'] <= (.5 + 1e-6 if op['kw']['lowring'] else 1e-9):
                            what = ('pivot', f'moved the pivot by {r["near"]} steps')
                else:
                    what = None
                    if not r['err'] <= 1e-9:
                        what = (op['op'], f'after {op} the samples are off by {r["err"]:.3g} of the largest')
                    elif not r['same']:
                        what = ('input', 'modified its input')
                if what:
                    bad = what
                    ctx.violation(f'{name}:{what[0]}', f'{name} transform (step {op}) {what[1]}', [s, g])
                    break
            if not bad and s['kind'] == 'disc':
                # back at the points one came from
                if not g['rec'] <= 1e-9 or not g['back'] <= 1e-9:
                    ctx.violation(f'{name}:points', f'points of the transform off by {g["rec"]:.3g}, of its inverse by {g["back"]:.3g}', [s, g])
                elif not g.get('real', 0.) <= 1e-10:
                    ctx.violation(f'{name}:real', f'transform of real samples has a part {g["real"]:.3g} of the wrong phase', [s, g])
                elif not s['lowring'] and g['piv'][0] != s['pivot']:
                    ctx.violation(f'{name}:pivot', f'pivot {g["piv"]} instead of {s["pivot"]}', [s, g])
                elif s['lowring'] and s['pivot'] and not abs(math.log(g['piv'][0]/s['pivot'])) <= .5*s['dl']*(1 + 1e-6):
                    ctx.violation(f'{name}:pivot', f'pivot {g["piv"]} too far from {s["pivot"]}', [s, g])
        elif s['kind'] == 'ext':
            ctx.act(f"ext{s['dim']}:{s['extrap']}:{s['layer'] if o['ok'] else 'refused'}")
            if g['ok'] != o['ok']:
                # a zero at the end of a power law is continued by zeros
                if g['ok'] and not any(v[j][0]*v[0][0] < 0 for v in s['line'] for j in range(s['n'])):
                    continue
                ctx.violation('ext:outcome', f'transform {"failed" if o["ok"] else "accepted samples of both signs"}: {g.get("err")}', [s, g])
            elif o['ok'] and not g['e'] <= 1e-8:
                ctx.violation(f'ext{s["dim"]}:value', f'transform of samples with extrapolation {s["extrap"]} ({s["layer"]}) differs by {g["e"]:.3g} from that of the extrapolated samples', [s, g])
            elif o['ok'] and not g['p'] <= 1e-9:
                ctx.violation('ext:points', f'points off by {g["p"]:.3g}', [s, g])
        elif s['kind'] == 'resample':
            ctx.act(f"resample:{s['rule']}{len(s['x'])}")
            val = lambda q: q[0]/q[1]
            x = [[val(q) for q in p] for p in o['x']]
            m = [[val(q) for q in r] for r in o['m']]
            top = max(1, max(abs(v) for r in m for v in r), sum(abs(c) for r in s['c'] for c in r)*max(max(abs(val(v)) for v in p) for p in s['x'])**sum((len(s['c']) - 1, len(s['c'][0]) - 1)))
            if not g['same']:
                ctx.violation('resample:input', 'resampling modified its input', [s, g])
            elif [len(p) for p in g['x']] != [len(p) for p in x] or [len(r) for r in g['m']] != [len(r) for r in m]:
                ctx.violation('resample:shape', f'resampling to {s["size"]} returned {[len(p) for p in g["x"]]} points', [s, g, o])
            elif any(abs(a - b) > 1e-12*abs(b) for p, r in zip(g['x'], x) for a, b in zip(p, r)):
                ctx.violation('resample:points', f'resampled at {g["x"]} instead of {x}', [s, g, o])
            elif any(not abs(a - b) <= 1e-11*top for p, r in zip(g['m'], m) for a, b in zip(p, r)):
                ctx.violation('resample:value', f'resampled values {g["m"]} instead of {m}', [s, g, o])
        else:
            ctx.act('size:ok' if o['ok'] else 'size:refused')
            if g['ok'] != o['ok']:
                ctx.violation('size:outcome', f'transform {"refused" if o["ok"] else "accepted"}: {g.get("err")} for {s}', [s, g, o])
            elif o['ok']:
                want = [s['n']]*s['dim']
                if g['len'][0] != want or g['len'][1][-s['dim']:] != want or not g['fin']:
                    ctx.violation('size:samples', f'{s["n"]} samples gave {g["len"]}', [s, g, o])
                elif s['layer'] != 'x' and g['size'] != o['size']:
                    ctx.violation('size:transform', f'transform size {g["size"]} instead of {o["size"]}', [s, g, o])
    ctx.sample(sc[0])
    ctx.sample(cc[-1])


TOL = {1: 5e-5, 2: 5e-4}
