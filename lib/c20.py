"""C20: extrapolation of sample arrays and reshaping of three-point tables against Extrap.tla."""
import itertools
import math

INV = ''.join(f'INVARIANT {x}\n' for x in ['Emit', 'Kept', 'Shape', 'Closed', 'Exact', 'Symmetric', 'Filled'])


def val(x):
    return x if isinstance(x, int) else x[0]*2.**x[1]*3.**x[2]


def oscil_line(rng, n):
    w = rng.random()
    sg = rng.choice([1, -1])
    if w < .5:
        p = rng.randrange(n)
        v = [0]*n
        for j in range(p - 1, -1, -1):
            v[j] = v[j + 1] - rng.randint(1, 2)
        for j in range(p + 1, n):
            v[j] = v[j - 1] - rng.randint(1, 2)
        return [[sg, x, 0] for x in v]
    if w < .7:
        return [[sg, rng.randint(-3, 3), 0] for _ in range(n)]
    return [[rng.choice([1, -1]), rng.randint(-3, 3), 0] for _ in range(n)]


def grow(rng, big, cpp):
    dim = 1 if cpp else rng.choice([1, 2])
    rule = rng.choice(['lin', 'loglin', 'pad'] if cpp else ['lin', 'loglin', 'pad', 'oscil'])
    nr, nc = (1, rng.randint(2, 9)) if dim == 1 else (rng.randint(2, 4), rng.randint(2, 4))
    top = 4 if dim == 1 else 3
    s = dict(kind='grow', dim=dim, rule=rule, cpp=cpp, nc=rng.randint(0, top), nr=0, left=[0], right=[0], up=[0], down=[0], scalar=rng.random() < .5, column=rng.random() < .2,
             int=False, seq='int')
    if dim == 2:
        s['nr'] = rng.randint(0, top) if rng.random() < .7 else s['nc']
    if rule == 'oscil':
        if dim == 1:
            s['a'] = [oscil_line(rng, rng.randint(8, 14))]
        else:
            f, g = None, None
            while True:
                f, g = oscil_line(rng, rng.randint(8, 9)), oscil_line(rng, rng.randint(8, 9))
                if all(x[0] == y[0][0] for y in (f, g) for x in y) and all(clean([x[1] for x in y]) for y in (f, g)):
                    break
            s['nr'], s['nc'] = min(s['nr'], 2), min(s['nc'], 2)
            s['a'] = [[[x[0]*y[0], x[1] + y[1], 0] for y in g] for x in f]
    elif rule == 'loglin':
        bad = rng.random() < .15
        w = rng.random()
        if w < .3:
            x, y = [rng.randint(-2, 2) for _ in range(3)], [rng.randint(-1, 1) for _ in range(3)]
            sg = rng.choice([1, -1])
            s['a'] = [[[sg, x[0] + x[1]*r + x[2]*c, y[0] + y[1]*r + y[2]*c] for c in range(nc)] for r in range(nr)]
        else:
            sg = rng.choice([1, -1])
            s['a'] = [[[sg, rng.randint(-4, 4), rng.randint(-2, 2)] for _ in range(nc)] for _ in range(nr)]
        for _ in range(rng.choice([0, 0, 1, 2])):
            r, c = rng.randrange(nr), rng.randrange(nc)
            s['a'][r][c] = [0, 0, 0] if rng.random() < .7 else [-s['a'][r][c][0]] + s['a'][r][c][1:]
        if not bad and rng.random() < .25:
            # whole edges of zeros
            for r in range(nr):
                s['a'][r][0] = [0, 0, 0]
                if rng.random() < .5:
                    s['a'][r][-1] = [0, 0, 0]
                if nc > 2 and rng.random() < .3 and nr == 1:
                    pass
    else:
        if rule == 'lin' and rng.random() < .4:
            a, b, c = [rng.randint(-20, 20) for _ in range(3)]
            s['a'] = [[a + b*r + c*j for j in range(nc)] for r in range(nr)]
        else:
            s['a'] = [[rng.randint(-99, 99) for _ in range(nc)] for _ in range(nr)]
        s['int'] = rng.random() < .3
        if rule == 'pad':
            nr, nc = len(s['a']), len(s['a'][0])
            c4 = [rng.randint(-9, 9) for _ in range(4)]
            if rng.random() < .4:
                c4 = [c4[0]]*4
            mk = lambda a, b, n: [a] + [a if len(set(c4)) == 1 else rng.randint(-9, 9) for _ in range(n - 2)] + [b] if n > 1 else [a]
            s.update(left=mk(c4[0], c4[2], nr), right=mk(c4[1], c4[3], nr), up=mk(c4[0], c4[1], nc), down=mk(c4[2], c4[3], nc))
            if dim == 2 and rng.random() < .15:
                s[rng.choice(['left', 'right', 'up', 'down'])][rng.choice([0, -1])] += 1
    s['next'] = s['nc'] if dim == 1 or (s['nr'] == s['nc'] and rng.random() < .6) else [s['nr'], s['nc']]
    if isinstance(s['next'], list):
        s['seq'] = rng.choice(['tuple', 'list'])
    s['val'] = [[val(x) for x in r] for r in s['a']]
    return s


def clean(v):
    p = v.index(max(v))
    up = all(a < b for a, b in zip(v[:p], v[1:p + 1]))
    dn = all(a > b for a, b in zip(v[p:], v[p + 1:]))
    return up and dn and (p == 0 or p >= 3) and (p == len(v) - 1 or p <= len(v) - 5)


def table(rng):
    shape = rng.choice(['triu', 'full'])
    n = rng.randint(1, 7)
    x = sorted(rng.sample(range(1, 500), n))
    ij = [(r, c) for r in range(n) for c in range(r if shape == 'triu' else 0, n)]
    if rng.random() < .2:
        k = rng.randint(1, len(ij))
        if not any(k == (x*(x + 1)//2 if shape == 'triu' else x*x) for x in range(n)):
            ij = ij[:k]
    return dict(kind='table', shape=shape, n=n, x=x, flat=[rng.randint(0, 10**6) for _ in ij], coords=[[x[r], x[c]] for r, c in ij])


def sort(rng):
    n = rng.randint(1, 60)
    return dict(kind='sort', flat=[rng.randint(-9, rng.choice([0, 9, 99])) for _ in range(n)])


def same(a, b):
    return a == b if isinstance(a, int) else abs(val(a) - b) <= 1e-11*abs(val(a)) + (1e-300 if a[0] == 0 else 0)


def checks(ctx, h):
    """Every small array against the reader of ArrayChecks.tla."""
    rng = ctx.rng
    small, large = [-1, 0, 1, 2], [-4, -2, -1, 0, 1, 2, 3, 4]
    lines = [list(v) for n in (1, 2, 3) for v in itertools.product(large, repeat=n)] + [list(v) for n in (4, 5) for v in itertools.product(small, repeat=n)]
    lines += [[a + b*j for j in range(n)] for n in (4, 6, 7) for a in (-3, 0, 5) for b in (-2, 0, 1)] + [[sg*3**(j if up else n - j)*2 for j in range(n)] for n in (4, 6) for sg in (1, -1) for up in (0, 1)]
    scen = [dict(dim=1, a=[v] if rng.random() < .7 else [[x] for x in v]) for v in lines]
    scen += [dict(dim=2, a=[list(v[:2]), list(v[2:])]) for v in itertools.product([-1, 0, 1, 2, 4], repeat=4)]
    for _ in range(ctx.pick(900, 9000)):
        nr, nc = rng.randint(1, 3), rng.randint(1, 4)
        k = rng.random()
        f = [rng.choice([1, 2, -1]) for _ in range(4)]
        if k < .3:
            a = [[f[0]*r + f[1]*c + f[2] for c in range(nc)] for r in range(nr)]
        elif k < .5:
            a = [[f[2]*(f[3]**2)*2**(r*abs(f[0]) + c*abs(f[1])) for c in range(nc)] for r in range(nr)]
        else:
            a = [[rng.choice(small + [4]) for _ in range(nc)] for _ in range(nr)]
        if rng.random() < .3:
            a[rng.randrange(nr)][rng.randrange(nc)] = rng.choice(large)
        scen.append(dict(dim=rng.choice([1, 2, 2, 2]), a=a))
    exp = ctx.oracle('ArrayChecks', scen, cfgx=''.join(f'INVARIANT {x}\n' for x in ['Emit', 'EvenSorted', 'LogOneSign', 'StrictEnds', 'LogSorted', 'BothConstant']))
    jobs = [dict(s, kind='check', int=rng.random() < .3, squeeze=rng.random() < .5) for s in scen]
    got = ctx.drive('d_extrap.py', jobs, procs=4)
    cj = [j for j, s in enumerate(scen) if s['dim'] == 1 and len(s['a']) == 1 and len(s['a'][0]) > 1]
    cpp = dict(zip(cj, ctx.drive(h, [jobs[j] for j in cj], procs=4)))
    for j, (s, o, g) in enumerate(zip(scen, exp, got)):
        ctx.traces += 1
        want = []
        for f in range(16):
            fail = [e for on, ok, e in ((True, o['fit'], 'ShapeError'), (f & 1, o['sorted'], 'OrderError'), (f & 2, o['ends'], 'MixedSignError'), (f & 4, o['even'], 'SpacingError'),
                                        (f & 8, o['strict'], 'MixedSignError'), (f & 8, o['log'], 'SpacingError')) if on and not ok]
            want.append(fail[0] if fail else '')
        ctx.act(f"check{s['dim']}:{'fit' if o['fit'] else 'unfit'}")
        if g.get('out') != want:
            n = [x for x in range(16) if 'out' not in g or g['out'][x] != want[x]][0]
            ctx.violation(f"check{s['dim']}:{want[n] or 'valid'}", f"checks {n:04b} (loglin, lin, epsign, sorted) of {s['a']} gave {g['out'][n] if 'out' in g else g} instead of {want[n] or 'acceptance'}", [s, g, o])
        if j in cpp:
            c = cpp[j]
            w = [next((e for on, ok, e in ((f & 1, o['even'], 1), (f & 2, o['sign'], 3), (f & 2, o['log'], 2), (f & 4, o['sign'], 3)) if on and not ok), 0) for f in range(8)]
            ctx.act('check compiled')
            if c.get('codes') != w or not c['same']:
                ctx.violation('check compiled', f"compiled checks of {s['a'][0]} gave {c} instead of {w} for the flags (sign, loglin, lin) 000 to 111", [s, c, o])


def run(ctx):
    ctx.build(ext=True, cpp=True)
    h = ctx.compile_harness('h_extrap.cpp')
    checks(ctx, h)
    rng = ctx.rng
    n = ctx.pick(700, 9000)
    sp = [grow(rng, False, False) for _ in range(n)] + [table(rng) for _ in range(n//4)]
    sc = [grow(rng, False, True) for _ in range(n//2)] + [sort(rng) for _ in range(n//10)]
    for s in sc:
        if s['kind'] == 'grow':
            s['val2'], s['val'] = s['val'], s['val'][0]
    rp = ctx.drive('d_extrap.py', sp, procs=4)
    rc = ctx.drive(h, sc, procs=4)
    for s, g in zip(sc, rc):
        if s['kind'] == 'sort':
            s['idx'] = [int(x) for x in g.get('idx', [])]
    keep = ('kind', 'dim', 'rule', 'cpp', 'a', 'nc', 'nr', 'left', 'right', 'up', 'down', 'shape', 'n', 'flat', 'idx')
    exp = ctx.oracle('Extrap', [{k: v for k, v in s.items() if k in keep} | ({} if s['kind'] != 'sort' else dict(n=0)) for s in sp + sc], cfgx=INV)
    for s, g, o in zip(sp + sc, rp + rc, exp):
        ctx.traces += 1
        name = (f"{s['rule']}{s['dim']}" if s['kind'] == 'grow' else s['kind']) + (' compiled' if s.get('cpp') else '')
        ctx.act(name + ('' if o['ok'] else ':reject'))
        if 'driver_error' in g or 'crash' in g:
            ctx.violation(f'{name}:crash', f'{name} failed: {g}', [s, g])
            continue
        if s['kind'] == 'sort':
            if not o['ok']:
                ctx.violation('sort', f'{g["idx"]} does not sort {s["flat"]}', [s, g])
            continue
        if s.get('cpp'):
            ck = [not c for c in g['ck']]
            w = o['check']
            want = [w[0] if s['rule'] != 'loglin' else ck[0], w[1], w[1] and w[2] if s['rule'] == 'loglin' else ck[2]]
            if ck != want:
                ctx.violation(f'{name}:checks', f'checks (linear, signs, log-linear) say {ck} of {s["val"]} instead of {want}', [s, g])
                continue
        if bool(g.get('err')) == o['ok']:
            ctx.violation(f'{name}:outcome', f'{name} {"rejected" if o["ok"] else "accepted"} {s.get("val", s.get("flat"))}', [s, g, o])
            continue
        if not o['ok']:
            continue
        if not g['same']:
            ctx.violation(f'{name}:input', f'{name} changed its input', [s, g])
        got = [g['m']] if s.get('cpp') else g['m']
        want = o['m']
        if s['kind'] == 'table':
            nn = int(len(want[0]) if want else 0)
            if [x for x in g['x']] != [float(x) for x in s['x']]:
                ctx.violation('table:coordinates', f'coordinates {g["x"]} instead of {s["x"]}', [s, g])
                continue
        if len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
            ctx.violation(f'{name}:shape', f'{name} of {len(s["a"])} by {len(s["a"][0])} samples with {s["next"]} extra gave {len(got)} by {len(got[0])} instead of {len(want)} by {len(want[0])}', [s, g, o])
            continue
        if s.get('rule') == 'oscil' and s['dim'] == 1 and 'open' in o['ends']:
            v, w, k = s['val'][0], got[0], s['nc']
            ok = w[k:len(w) - k] == v
            for side, ref, e in ((w[:k + 1][::-1], want[0][:k + 1][::-1], o['ends'][0]), (w[len(w) - k - 1:], want[0][len(w) - k - 1:], o['ends'][1])):
                if e != 'open':
                    ok = ok and all(same(x, y) for x, y in zip(ref, side))
                else:
                    q = side[1]/side[0] if k else 1
                    ok = ok and 0 <= q <= 1 + 1e-12 and all(abs(y - x*q) <= 1e-9*abs(x) for x, y in zip(side, side[1:]))
            if not ok:
                ctx.violation(f'{name}:tail', f'{name} of {v} with {k} extra gave {w}: not the samples with non-growing power laws at the ends', [s, g])
            continue
        bad = [(r, c) for r in range(len(want)) for c in range(len(want[r])) if not same(want[r][c], got[r][c])]
        if bad:
            r, c = bad[0]
            ctx.violation(f'{name}:value', f'{name} of {s.get("val", s.get("flat"))} with {s.get("next")} extra gave {got[r][c]} at ({r}, {c}) instead of {val(want[r][c])}', [s, g, o])
    ctx.sample(sp[0])
    ctx.sample(sc[0])
