"""C23: window function objects against Window.tla."""
from fractions import Fraction as F
import rat
from c24 import P3, fr, key, uniq, poly, rats

CFG = ''.join(f'INVARIANT {x}\n' for x in ['Emit', 'Square', 'Increasing', 'StaysSymmetric', 'Consistent', 'EveryRow']) + 'PROPERTY KeepsEnds\nPROPERTY OthersStay\n'
LO = [F(1), F(2), F(1, 2), F(3), F(1, 4)]


def val(c, x, y):
    return rat.horner([rat.horner(r, y) for r in c], x)


def geo(r):
    return all(a*c == b*b for a, b, c in zip(r, r[1:], r[2:]))


def root(q, n):
    """The whole (or 3/2) n-th root."""
    for t in [F(a) for a in range(2, 65)] + [F(3, 2)]:
        if t**n == q:
            return t
    return None


def spaced(sp, r, n):
    n = n or len(r)
    lo, hi = r[0], r[-1]
    if sp == 'lin':
        return [lo + F(j, n - 1)*(hi - lo) for j in range(n)]
    t = root(hi/lo, n - 1)
    return [lo*t**j for j in range(n)]


def sizes(sp, rs, least):
    """Numbers of points with which all of the points are rational."""
    out = [n for n in range(max(3, least), 10) if sp == 'lin' or all(root(r[-1]/r[0], n - 1) for r in rs)]
    return out


def table(l, r, c):
    sym = l[0] == l[1]
    return [val(c, x, y) for a, x in enumerate(r) for y in (r[a:] if sym else r)]


def scen(rng, deep):
    ops, objs = [], []          # mirror: {l: dict(r, c, exact, raw)}

    def new(via):
        raw = rng.random() < .25
        ls = rng.sample(P3, rng.randint(1, 4))
        one = rng.random() < .5
        ms, o = [], {}
        alpha = rng.choice([F(1), F(1), F(1, 2), F(2), F(-1), F(1, 10)])
        loglin = rng.choice([0, 1, 1, 1, 5, 7])

        def grid():
            lo = rng.choice(LO)
            w = rng.random()
            if w < .35:
                t = rng.choice([F(2), F(2), F(4), F(3), F(3, 2)])
                n = rng.randint(3, 5 if t > 2 else 6)
                return [lo*t**j for j in range(n)]
            if w < .8:
                # not log-linear; same number of points can be
                t = rng.choice([F(2), F(2), F(3, 2)])
                n = rng.randint(4, 6)
                hi = lo*t**(n - 1)
                mid = {lo + (hi - lo)*F(rng.randint(1, 23), 24) for _ in range(40)}
                return [lo] + sorted(rng.sample(sorted(mid), n - 2)) + [hi]
            return sorted(rng.sample([F(j, 4) for j in range(1, 33)], rng.randint(3, 6)))
        common = grid()
        bad = rng.choice(['rows', 'length']) if rng.random() < .07 else ''
        who = rng.choice(ls)
        for l in ls:
            r = common if one else grid()
            sym = l[0] == l[1]
            d = rng.randint(0, min(2, len(r) - 1))
            c = [[rng.randint(-3, 3) for _ in range(d + 1)] for _ in range(d + 1)]
            c[0][0] = c[0][0] or 1
            if sym:
                c = [[c[min(a, b)][max(a, b)] for b in range(d + 1)] for a in range(d + 1)]
            flat = [F(rng.randint(-999, 999), rng.choice([1, 2, 8])) for _ in table(l, r, c)] if raw else table(l, r, c)
            e = dict(l=l, r=r, c=[] if raw else c, flat=flat, rows=len(flat), src='array')
            o[tuple(l)] = dict(r=r, c=e['c'], f=alpha**2, exact=True)
            if l == who and bad == 'rows':
                # not as many rows as a matrix has
                m = len(flat) - 1
                while any(m == (k*(k + 1)//2 if sym else k*k) for k in range(m + 1)):
                    m -= 1
                e['flat'] = flat[:m]
                e['rows'] = m
                if m < 2:
                    return False
            elif l == who and bad == 'length':
                e['flat'] = flat[:-1]
            ms.append(e)
        if bad and one and via == 'array':
            one = False
        if via == 'text' and bad == 'length':
            return False
        op = dict(op='new', via=via, ms=ms, alpha=alpha, loglin=loglin, common=one and len({e['rows'] for e in ms}) == 1 and len({e['l'][0] == e['l'][1] for e in ms}) == 1)
        if via == 'text':
            op['shot'] = rng.random() < .6
            for n, e in enumerate(ms):
                e['src'] = f'{rng.choice("pqrs")}{n}.txt'
                # shot noise, to be subtracted
                e['noise'] = [rng.randint(-50, 50) for _ in e['flat']]
            op['cols'] = rng.random() < .5
            op['fkeys'] = rng.choice(['tuple', 'str'])
        if not bad:
            if not all(geo(x['r']) for x in o.values()) and loglin:
                if raw:
                    return False
                n = 0 if loglin == 1 else loglin
                if any(n < 0 or root(x['r'][-1]/x['r'][0], (n or len(x['r'])) - 1) is None for x in o.values()):
                    return False
                for x in o.values():
                    if len(x['r']) <= 3:
                        return False
                    x['r'] = spaced('lglin', x['r'], n)
                    x['exact'] = False
            elif not all(geo(x['r']) for x in o.values()):
                pass
            objs.append(o)
        ops.append(op)
        return True

    def edge(o, l, which):
        """End of a range: on a point where it is sure, else between points."""
        r = o[l]['r'] or [F(1)]
        x = rng.choice(r)
        if not o[l]['exact'] or rng.random() < .3 or which == 'all':
            x = x*rng.choice([F(15, 16), F(17, 16)])
            # nearest point is well away for all multipoles
        ok = all(y == x and o[m]['exact'] or abs(y - x) > x/1000 for m in o for y in o[m]['r'] if which == 'all' or m == l)
        return x if ok else None

    def sub():
        h = rng.randrange(len(objs))
        o = objs[h]
        op = dict(op='sub', h=h, inplace=rng.random() < .5, rmode=rng.choice(['none', 'all', 'each']), imode=rng.choice(['none', 'all', 'each']), rr=[], ir=[])

        def rrange(l, which):
            if which == 'all' and all(o[m]['r'] == o[l]['r'] and o[m]['exact'] for m in o):
                lo, hi = edge(o, l, 'same'), edge(o, l, 'same')
                good = lambda x: x is not None and all(y == x or abs(y - x) > x/1000 for m in o for y in o[m]['r'])
                lo, hi = (lo if good(lo) else None), (hi if good(hi) else None)
            else:
                lo, hi = edge(o, l, which), edge(o, l, which)
            if lo is not None and hi is not None and lo > hi and rng.random() < .9:
                lo, hi = hi, lo
            return dict(lo=[] if lo is None or rng.random() < .25 else [lo], hi=[] if hi is None or rng.random() < .25 else [hi])

        def irange():
            n = max(len(x['r']) for x in o.values())
            a, b = rng.randint(-n - 1, n), rng.randint(-n - 1, n + 1)
            if rng.random() < .8:
                a, b = rng.randint(0, 2), rng.choice([-1, -2, n, n - 1, n + 2])
            return dict(lo=[] if rng.random() < .3 else [a], hi=[] if rng.random() < .3 else [b])
        ls = list(o)
        if op['rmode'] == 'all':
            op['rr'] = [rrange(ls[0], 'all')]
        elif op['rmode'] == 'each':
            op['rr'] = [dict(l=list(l), **rrange(l, 'one')) for l in rng.sample(ls, rng.randint(1, len(ls)))]
        if op['imode'] == 'all':
            op['ir'] = [irange()]
        elif op['imode'] == 'each':
            op['ir'] = [dict(l=list(l), **irange()) for l in rng.sample(ls, rng.randint(1, len(ls)))]
        new = {}
        for l, x in o.items():
            n = len(x['r'])
            g = op['rr'][0] if op['rmode'] == 'all' else next((y for y in op['rr'] if tuple(y['l']) == l), None) if op['rmode'] == 'each' else None
            d = op['ir'][0] if op['imode'] == 'all' else next((y for y in op['ir'] if tuple(y['l']) == l), None) if op['imode'] == 'each' else None
            idx = set(range(n)[slice(d['lo'][0] if d['lo'] else None, d['hi'][0] if d['hi'] else None)]) if d else set(range(n))
            new[l] = dict(x, r=[r for j, r in enumerate(x['r']) if j in idx and (not g or ((not g['lo'] or g['lo'][0] <= r) and (not g['hi'] or r <= g['hi'][0])))])
        if any(len(x['r']) < 3 for x in new.values()) and rng.random() < .8:
            return False
        ops.append(op)
        if op['inplace']:
            objs[h] = new
        else:
            objs.append(new)
        return True

    def res():
        h = rng.randrange(len(objs))
        o = objs[h]
        if rng.random() < .06:
            ops.append(dict(op='res', h=h, spacing=rng.choice(['log', 'linear', 'LIN']), size=0, spline=3))
            return True
        if any(not x['c'] for x in o.values()):
            return False
        spline = rng.choice([3, 3, 2, 4])
        if any(len(x['r']) <= max(spline, len(x['c'])) for x in o.values()):
            return False
        if any(len(x['c']) - 1 > spline for x in o.values()):
            return False
        sp = rng.choice(['lin', 'lglin'])
        ns = sizes(sp, [x['r'] for x in o.values()], 3)
        keep = sp == 'lin' or all(root(x['r'][-1]/x['r'][0], len(x['r']) - 1) for x in o.values())
        if keep and rng.random() < .4:
            n = 0
        elif ns:
            n = rng.choice(ns)
        else:
            return False
        ops.append(dict(op='res', h=h, spacing=sp, size=n, spline=spline, pair=rng.random() < .3, default=rng.random() < .5 and spline == 3 and sp == 'lglin'))
        for x in o.values():
            x['r'], x['exact'] = spaced(sp, x['r'], n), False
        return True

    def copy(what):
        h = rng.randrange(len(objs))
        ops.append(dict(op=what, h=h, src=rng.random() < .5, common=len({tuple(x['r']) for x in objs[h].values()}) == 1 and rng.random() < .6))
        objs.append({l: dict(x) for l, x in objs[h].items()})
        return True
    want = rng.randint(2, 7)
    for _ in range(200):
        if len(ops) >= want:
            break
        w = rng.random()
        if not objs or w < .1:
            new(rng.choice(['array', 'array', 'text']))
        elif w < .5:
            sub()
        elif w < .75:
            res()
        elif w < .85:
            copy('dict')
        else:
            copy('io')
    return dict(kind='objects', seed=rng.randint(0, 9999), ops=ops) if ops else None


def scen_ok(rng, deep):
    while True:
        try:
            s = scen(rng, deep)
        except rat.Big:
            continue
        if not s:
            continue
        if rat.fits(weigh, s):
            return plain(s)


def weigh(s):
    """Everything the specification computes is within its integers."""
    objs = []

    def table_(x):
        c = [[rat.mul(x['f'], F(v)) for v in r] for r in x['c']]
        for a in x['r']:
            for b in x['r']:
                rat.ck(val(c, a, b)*2)
    for op in s['ops']:
        if op['op'] == 'new':
            for e in op['ms']:
                for v in e['flat']:
                    rat.mul(rat.mul(F(op['alpha']), F(op['alpha'])), v)
                for a, b, c in zip(e['r'], e['r'][1:], e['r'][2:]):
                    rat.mul(a, c), rat.mul(b, b)
            objs.append([dict(r=e['r'], c=e['c'], f=op['alpha']**2) for e in op['ms']])
            if op['loglin'] and not all(geo(e['r']) for e in op['ms']) and all(e['c'] for e in op['ms']):
                for x in objs[-1]:
                    n = 0 if op['loglin'] == 1 else op['loglin']
                    if root(x['r'][-1]/x['r'][0], (n or len(x['r'])) - 1) is not None:
                        x['r'] = spaced('lglin', x['r'], n)
            for x in objs[-1]:
                if x['c']:
                    table_(x)
        elif op['op'] == 'res' and op['spacing'] in ('lin', 'lglin'):
            for o in objs:
                for x in o:
                    # conservative: all objects, the present ends
                    if x['c']:
                        n = op['size'] or len(x['r'])
                        if op['spacing'] == 'lin':
                            table_(dict(x, r=spaced('lin', x['r'], n)))


def plain(s):
    for op in s['ops']:
        if op['op'] == 'new':
            op['alpha'] = fr(op['alpha'])
            for e in op['ms']:
                e['r'] = [fr(v) for v in e['r']]
                e['c'] = rats(e['c'])
                e['flat'] = [fr(v) for v in e['flat']]
        elif op['op'] == 'sub':
            op['rr'] = [dict(x, lo=[fr(v) for v in x['lo']], hi=[fr(v) for v in x['hi']]) for x in op['rr']]
    return s


def strip(s):
    keep = dict(new=['op', 'alpha', 'loglin', 'ms'], dict=['op', 'h', 'src'], io=['op', 'h'], sub=['op', 'h', 'inplace', 'rmode', 'imode', 'rr', 'ir'], res=['op', 'h', 'spacing', 'size'])
    out = []
    for op in s['ops']:
        t = {k: op[k] for k in keep[op['op']]}
        if 'h' in t:
            t['h'] += 1
        if 'ms' in t:
            t['ms'] = [{k: v for k, v in e.items() if k != 'noise'} for e in t['ms']]
        out.append(t)
    return dict(ops=out)


def near(a, b, big):
    return abs(a - b) <= 1e-8*max(big, abs(b)) + 1e-12


def differs(g, o):
    """What of a real object differs from the model's."""
    ls = [e['l'] for e in o['m']]
    if g['ls'] != ls:
        return f'multipoles {g["ls"]} instead of {ls}'
    if g['src'] != o['src']:
        return f'sources {g["src"]} instead of {o["src"]} (multipoles {ls})'
    for e, r, q, d in zip(o['m'], g['r'], g['q'], g['d']):
        er = [a/b for a, b in e['r']]
        if len(r) != len(er) or any(abs(a - b) > 1e-9*abs(b) for a, b in zip(r, er)):
            return f'sample points of {e["l"]} are {r} instead of {er}'
        eq = [[a/b for a, b in x] for x in e['q']]
        if [len(x) for x in q] != [len(x) for x in eq]:
            return f'samples of {e["l"]} have shape {[len(x) for x in q]} instead of {[len(x) for x in eq]}'
        big = max([abs(v) for x in eq for v in x], default=0)
        for a, (x, y) in enumerate(zip(q, eq)):
            for b, (u, v) in enumerate(zip(x, y)):
                if not near(u, v, big):
                    return f'sample of {e["l"]} at {er[a]}, {er[b]} is {u} instead of {v}'
        if len(d) != len(eq) or any(not near(d[a], eq[a][a], big) for a in range(len(eq))):
            return f'diagonal of {e["l"]} is {d} instead of {[eq[a][a] for a in range(len(eq))]}'
    return ''


def run(ctx):
    ctx.build(ext=True)
    rng = ctx.rng
    sc = [scen_ok(rng, not ctx.quick) for _ in range(ctx.pick(260, 4000))]
    exp = ctx.oracle('Window', [strip(s) for s in sc], cfgx=CFG)
    res = ctx.drive('d_window.py', sc, procs=8)
    for s, g, o in zip(sc, res, exp):
        ctx.traces += 1
        if 'crash' in g or 'driver_error' in g:
            ctx.violation('objects:crash', f'failed: {g.get("crash", g)}', [s, g])
            continue
        held = []
        for op, gh, oh in zip(s['ops'], g['h'], o['h']):
            what = op['op'] + (':' + op['via'] if op['op'] == 'new' else ':' + op['spacing'] if op['op'] == 'res' and oh['ok'] else '')
            ctx.act(what + ('' if oh['ok'] else ':refused'))
            if gh['ok'] != oh['ok']:
                ctx.violation(f'{what}:refused', f'{op} {"accepted" if gh["ok"] else "refused: " + gh["err"]}', [s, gh, oh])
                break
            if gh['warn'] != oh['warn']:
                ctx.violation(f'{what}:warning', f'{op["op"]} {"warned" if gh["warn"] else "did not warn"} of points that are not log-linear', [s, gh, oh])
                break
            if oh['ok']:
                if oh['at'] > len(held):
                    held.append(None)
                held[oh['at'] - 1] = oh['o']
            bad = ''
            if len(gh['objs']) != len(held):
                bad = f'{len(gh["objs"])} objects instead of {len(held)}'
            for n, (a, b) in enumerate(zip(gh['objs'], held)):
                w = differs(a, b)
                if w:
                    bad = bad or f'{"other " if n != oh["at"] - 1 else ""}object after {op["op"]}: {w}'
            if bad:
                ctx.violation(f'{what}:{"other" if bad.startswith("other") else "object"}', bad, [s, gh, oh])
                break
            if not gh['pure']:
                ctx.violation(f'{what}:input', f'{op["op"]} changed what it was given', [s, gh])
                break
    # windows measured: with the numbers of rows as samples, the model says which row is where
    ms = []
    for _ in range(ctx.pick(12, 80)):
        n = rng.randint(3, 5)
        ls = rng.sample([[0, 0, 0], [1, 1, 0], [2, 0, 2], [1, 1, 2], [0, 2, 2], [2, 2, 0]], rng.randint(1, 2))
        ms.append(dict(kind='measured', n=n, ls=ls, np=rng.randint(10, 30), seed=rng.randint(0, 9999), keys=rng.choice(['str', 'tuple']), shot=rng.random() < .6, alpha=rng.choice([1., .5])))
    mo = []
    for s in ms:
        rows = {tuple(l): (s['n']*(s['n'] + 1)//2 if l[0] == l[1] else s['n']**2) for l in s['ls']}
        mo.append(dict(ops=[dict(op='new', alpha=[1, 1], loglin=0, ms=[dict(l=l, r=[[j, 1] for j in range(1, s['n'] + 1)], c=[], flat=[[j, 1] for j in range(1, rows[tuple(l)] + 1)], rows=rows[tuple(l)], src=str(l)) for l in s['ls']])]))
    for s, g, o in zip(ms, ctx.drive('d_window.py', ms, procs=8), ctx.oracle('Window', mo, cfgx=CFG)):
        ctx.traces += 1
        ctx.act('measured')
        if 'crash' in g or 'driver_error' in g:
            ctx.violation('measured:crash', f'failed: {g.get("crash", g)}', [s, g])
            continue
        m = o['h'][0]['o']
        if g['ls'] != [e['l'] for e in m['m']] or g['src'] != m['src']:
            ctx.violation('measured:sources', f'multipoles {g["ls"]} from {g["src"]} instead of {m["src"]}', [s, g])
            continue
        for e, rows, v, r2, q, r, d in zip(m['m'], g['rows'], g['val'], g['r2'], g['q'], g['r'], g['d']):
            n = s['n']
            big = max(abs(x) for x in v) or 1.
            if rows != max(x[0] for y in e['q'] for x in y) or len(q) != n:
                ctx.violation('measured:rows', f'{rows} rows measured of {e["l"]} with {n} bins', [s, g])
            elif any(abs(q[a][b] - v[e['q'][a][b][0] - 1]) > 1e-8*big for a in range(n) for b in range(n)) or any(abs(d[a] - q[a][a]) > 0 for a in range(n)):
                ctx.violation('measured:value', f'loaded samples of {e["l"]} are not those measured', [s, g])
            elif any(abs(r[a] - r2[a]) > 1e-8*abs(r2[a]) for a in range(n)):
                ctx.violation('measured:points', f'loaded sample points of {e["l"]} are {r} instead of {r2[:n]}', [s, g])
    ctx.sample(strip(sc[0]))
    ctx.assumptions += ['samples that are resampled are of polynomials within the degree of the spline; log-linear points with whole ratios']
