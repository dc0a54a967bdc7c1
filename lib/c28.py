"""C28: results do not depend on the number of threads (Parallel.tla, ParallelRuns.tla, MeshRun.tla)."""
import itertools, json, math
from common import MachineryError
import c07

KIND = [('powspec', 'powspec', 'survey'), ('powspec_box', 'powspec', 'sim'), ('2pcf', '2pcf', 'survey'), ('2pcf_box', '2pcf', 'sim'),
        ('2pcf_win', '2pcf-win', 'random'), ('3pcf', '3pcf', 'survey'), ('3pcf_box', '3pcf', 'sim'), ('3pcf_win', '3pcf-win', 'random'),
        ('wide', '3pcf-win', 'random')] + [('bispec', 'bispec', 'survey'), ('bispec_box', 'bispec', 'sim')]*6
DEG = [[1, 1, 0], [2, 2, 0], [1, 1, 2], [2, 0, 2], [0, 2, 2], [0, 0, 0]]
FORMS = [('full', 'full', 0), ('full', 'triu', 0), ('diag', 'diag', 0), ('off-diag', 'off-diag', 1), ('row', 'row', 1), ('off-diag', 'off-diag', -1)]


def par(n, box, assignment='cic', inter=False, **k):
    return dict(dict(boxsize=box, ngrid=n, assignment=assignment, interlace='true' if inter else 'false', catalogue_type='survey',
                     statistic_type='powspec', alignment='centre', binning='custom', bin_min=.01, bin_max=.5, num_bins=4), **k)


def threads(rng, runs):
    return [1] + [rng.choice([2, 3, 5, 7, 8, 8, 8]) for _ in range(runs - 2)] + [8]


def edges(rng, n, box):
    """Bins in either space, clear of the separations of the mesh."""
    kn = math.pi*min(m/b for m, b in zip(n, box))
    kf = 2*math.pi/max(box)
    e = [0.45*kf + (kn*.93 - .45*kf)*(x + .2*rng.random())/4 for x in range(5)]
    h = max(b/m for m, b in zip(n, box))
    r = [.3*h + (.43*min(box) - .3*h)*(x + .2*rng.random())/4 for x in range(5)]
    return e, r


def jobs(ctx):
    rng, out = ctx.rng, []
    for rep in range(ctx.pick(1, 4)):
        for (a, inter) in itertools.product(('ngp', 'cic', 'tsc', 'pcs'), (False, True)):
            m = rng.choice([12, 15, 16])
            n = [m, rng.choice([12, 14]), rng.choice([13, 16])]
            box = [rng.uniform(80, 120) for _ in range(3)]
            e, r = edges(rng, n, box)
            deg = rng.choice([[1, 2, 2], [2, 2, 2], [3, 1, 2], [1, 2, 3]])
            base = dict(par=par(n, box, a, inter), blocks=24, deg=deg, edges=e, redges=r)
            cat = lambda f: dict(count=rng.randint(2000, 3500), seed=rng.randrange(1 << 30), frac=f)
            out.append(dict(base, kernel='fields', threads=threads(rng, ctx.pick(4, 8)), cat=cat(.25), ran=cat(1.)))
            # wide and small boxes: all modes, or all separations, in a handful of sampling intervals
            for f in (3e4, 1/100.):
                bb = [x*f for x in box]
                e2, r2 = edges(rng, n, bb)
                if f > 1:
                    e2[0], r2[0] = 0., 0.
                else:
                    e2[0], r2[0] = 0., 0.
                out.append(dict(base, par=par(n, bb, a, inter), edges=e2, redges=r2, kernel='fields', threads=threads(rng, ctx.pick(3, 6)), cat=cat(.25), ran=cat(1.)))
            # few cells, many particles: as much contention as there can be
            small = dict(base, par=par([4, 5, 4], box, a, inter))
            out.append(dict(small, kernel='meshnorm', threads=threads(rng, ctx.pick(5, 12)), cat=cat(.5), ran=cat(.5)))
            out.append(dict(base, kernel='catalogue', threads=threads(rng, ctx.pick(8, 30)), cat=cat(1.), ran=cat(1.)))
            if inter:
                out.append(dict(base, kernel='maths', threads=threads(rng, ctx.pick(5, 10))))
    turn = dict(bispec=0, bispec_box=0)
    for j in range(ctx.pick(1, 5)*len(KIND)):
        k, st, ct = KIND[j % len(KIND)]
        three = st[0] in 'b3'
        n = [rng.choice([9, 11, 13]) for _ in range(3)] if three else [rng.choice([12, 15, 17, 20]) for _ in range(3)]
        box = [rng.uniform(80, 120) for _ in range(3)]
        e, r = edges(rng, n, box)
        deg = rng.choice(DEG) if three else [0, 0, rng.choice([0, 2, 4] if ct == 'sim' else [0, 1, 2, 3])]
        form, shape, idx = FORMS[0]
        if k in turn:
            form, shape, idx = FORMS[turn[k] % len(FORMS)]
            turn[k] += 1
            deg = rng.choice([d for d in DEG if shape not in ('full', 'triu') or (d[0] == d[1]) == (shape == 'triu')])
        elif three:
            shape = 'triu' if deg[0] == deg[1] else 'full'
        p = par(n, box, rng.choice(['ngp', 'cic', 'tsc', 'pcs']), rng.random() < .3, catalogue_type=ct, statistic_type=st,
                ell1=deg[0], ell2=deg[1], ELL=deg[2])
        if three:
            p.update(form=form, shape=shape, idx_bin=idx)
        if k == 'wide':
            p.update(i_wa=1, j_wa=rng.choice([0, 1]))
        s = dict(kernel='3pcf_win' if k == 'wide' else k, par=p, blocks=64, deg=deg, edges=e if st in ('powspec', 'bispec') else r, wa=k == 'wide',
                 threads=threads(rng, ctx.pick(3, 8)))
        if ct != 'random':
            s['cat'] = dict(count=rng.randint(1200, 2000), seed=rng.randrange(1 << 30))
        if ct != 'sim':
            s['ran'] = dict(count=rng.randint(1500, 2500), seed=rng.randrange(1 << 30))
        out.append(s)
    return out


def loops(ctx):
    """Every small loop: the disciplines, threads and cells of Parallel.tla."""
    out = []
    for how, priv in itertools.product(('atomic', 'reduction', 'critical', 'plain'), (True, False)):
        for cells in ([1, 1, 1], [1, 2, 1], [2, 1, 1, 2]) + ctx.pick((), ([1, 1, 1, 1], [1, 2, 3, 1])):
            for t in ctx.pick((1, 2, 3), (1, 2, 3, 4)):
                if t == 4 and len(cells) > 3:
                    continue
                out.append(dict(how=how, private=priv, cells=list(cells), ncell=max(cells), threads=t))
    return out


SPIN = dict(GOMP_SPINCOUNT='20000')     # waiting threads give way on a busy machine
# the harmonic averages of these may vanish: their scale is the amplitude put in
FLOOR = dict(pk_sn=1.)
INV = ''.join(f'INVARIANT {x}\n' for x in ('Emit', 'Determinate', 'Excluded', 'Logged', 'OneThread', 'NeverMore'))


def run(ctx):
    ctx.build(cpp=True)
    rng = ctx.rng
    exe = ctx.compile_harness('h_parallel.cpp')
    # the machine itself: guarded loops have one outcome, unguarded ones lose contributions
    ls = loops(ctx)
    lost, seen = set(), set()
    fin = ctx.path('loops.json')
    json.dump(ls, open(fin, 'w'))
    for o in ctx.tlc('Parallel', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + INV, env=dict(SCEN=fin))['json']:
        s = ls[o['i'] - 1]
        seen.add(o['i'])
        if not o['right']:
            lost.add((s['how'], s['private']))
    if len(seen) != len(ls) or lost != {('plain', True)} | {(h, False) for h in ('atomic', 'reduction', 'critical', 'plain')}:
        raise MachineryError(f'the loops of Parallel.tla: {lost}')
    ctx.extra['loops'] = len(ls)
    # exact totals of a crowded deposit, from MeshRun.tla
    sc = [s for s in c07.scenarios(ctx) if s['ps']]
    rng.shuffle(sc)
    pick = ctx.pick(6, 30)
    sc = [s for p, i in itertools.product((1, 2, 3, 4), (False, True)) for s in [s for s in sc if (s['p'], s['inter']) == (p, i)][:pick]]
    R = ctx.pick(1500, 6000)
    want = ctx.oracle('MeshRun', sc, consts='CONSTANT AnyOrder = FALSE\n', cfgx='INVARIANT Emit\nINVARIANT Conserved\n')
    ex = []
    for s in sc:
        h = [1., 2., .5]
        ex.append(dict(kernel='exact', repeat=R, blocks=100000, threads=[1, 8, 8],
                       par=par(s['n'], [h[a]*s['n'][a] for a in range(3)], c07.SCHEME[s['p']], s['inter'], catalogue_type='sim', alignment='centre'),
                       ps=[dict(x=[h[a]*p['x'][a]/s['q'][a] for a in range(3)], w=p['w']) for p in s['ps']]))
    for s, o, d, r in zip(sc, want, ex, ctx.drive(exe, ex, env=SPIN)):
        ctx.traces += 1
        name = f"deposit:{c07.SCHEME[s['p']]}{'+' if s['inter'] else ''}"
        ctx.act(name)
        if 'runs' not in r:
            ctx.violation(f'{name}:crash', f'{name}: {r}', d)
            continue
        vol = 1.
        for a in range(3):
            vol *= d['par']['boxsize'][a]/s['n'][a]
        exp = [x*R/(o['den']*vol) for c in o['f'] for x in c]
        top = max(map(abs, exp)) or R/vol
        for q in r['runs']:
            for what in ('mesh', 'again'):
                v = q['v'][what]['d']
                diff = [c for c in range(len(exp)) if not abs(v[c] - exp[c]) <= 1e-9*top]
                if diff:
                    c = diff[0]
                    ctx.violation(f'{name}:total', f'{name} on {int(q["t"])} threads: component {c} of the mesh is {v[c]!r}, {R} times the deposits are {exp[c]!r}', d)
        for q in r['runs'][1:]:
            a, b = r['runs'][0]['v']['fft']['d'], q['v']['fft']['d']
            t = max(map(abs, a))
            diff = [c for c in range(len(a)) if not abs(a[c] - b[c]) <= 1e-9*t]
            if diff:
                ctx.violation(f'{name}:transform', f'{name} on {int(q["t"])} threads: component {diff[0]} of the transform is {b[diff[0]]!r}, on one thread {a[diff[0]]!r}', d)
    # every kernel, on different numbers of threads
    js = jobs(ctx)
    res = ctx.drive(exe, js, timeout=800, env=SPIN)
    runs, idx = [], []
    for k, (s, r) in enumerate(zip(js, res)):
        ctx.traces += 1
        ctx.act(s['kernel'])
        if 'runs' not in r:
            ctx.violation(f"{s['kernel']}:crash", f"{s['kernel']} on {s['threads']} threads: {r}", s)
            continue
        ref = r['runs'][0]['v']
        unit = {}
        for n, v in ref.items():
            m = [abs(x) for x in v['d'] if not isinstance(x, str)]
            unit[n] = max(m + [v['top'] if not isinstance(v['top'], str) else 0, FLOOR.get(n, 1e-300)])
        if 'shot' in unit and 'value' in unit:
            unit['shot'] = max(unit['shot'], 1e-4*unit['value'])
        fix = lambda x, u: 2000000000 if isinstance(x, str) else max(-10**9, min(10**9, round(x/u*10**8)))
        runs.append(dict(runs=[dict(t=int(q['t']), v={n: [int(v['len'])] + [fix(x, unit.get(n, 1.)) for x in v['d']] for n, v in q['v'].items()}) for q in r['runs']]))
        idx.append(k)
    for k, o in zip(idx, ctx.oracle('ParallelRuns', runs, consts='CONSTANT Tol = 2\n', cfgx='INVARIANT Emit\nINVARIANT Serial1\n')):
        for n, q in sorted(map(tuple, o['bad'])):
            s, rr = js[k], res[k]['runs']
            a, b = rr[0]['v'].get(n, {}).get('d'), rr[q - 1]['v'].get(n, {}).get('d')
            ctx.violation(f"{s['kernel']}:{n}", f"{s['kernel']} ({s['par']['assignment']}, interlace {s['par']['interlace']}): {n} on {s['threads'][q - 1]} threads "
                          f"differs from the single-threaded result: {str(b)[:200]} / {str(a)[:200]}", s)
    ctx.sample(dict(kernel=js[0]['kernel'], threads=js[0]['threads'], results=sorted(res[0].get('runs', [{}])[0].get('v', {}))))
