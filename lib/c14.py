"""C14: every output form of a three-point statistic reports the entries of one table (Forms.tla)."""
import math

INV = ''.join(f'INVARIANT {x}\n' for x in ('Emit', 'Bounded', 'Once', 'Length', 'Placed', 'Covers'))
FNS = [('compute_bispec', 'fourier', 'survey'), ('compute_bispec_in_gpp_box', 'fourier', 'sim'), ('compute_3pcf', 'config', 'survey'),
       ('compute_3pcf_in_gpp_box', 'config', 'sim'), ('compute_3pcf_window', 'config', 'random'), ('wide', 'config', 'random')]
DEG = [(0, 0, 0), (1, 1, 0), (2, 2, 0), (1, 1, 2), (2, 2, 2), (2, 0, 2), (0, 2, 2), (1, 0, 1), (0, 1, 1), (1, 2, 1), (2, 1, 1), (1, 3, 2), (3, 1, 2)]


def measurement(rng, j):
    fn, space, ctype = FNS[j % len(FNS)]
    n = [rng.choice([5, 7, 9]) for _ in range(3)]
    box = [rng.uniform(60, 120) for _ in range(3)]
    nb = rng.choice([2, 3, 4, 4, 5])
    h = max(b/m for b, m in zip(box, n))
    if space == 'fourier':
        lo, hi = 2*math.pi/min(box)*.3, 2*math.pi/max(box)*(min(n)/2)*1.2
    else:
        lo, hi = rng.choice([0., .9*h]), min(box)*.62
    cuts = sorted(rng.uniform(lo, hi) for _ in range(nb - 1))
    e = [lo] + cuts + [hi]
    if min(b - a for a, b in zip(e, e[1:])) < (hi - lo)*.08:
        e = [lo + (hi - lo)*k/nb for k in range(nb + 1)]
    inside = lambda: [rng.uniform(.15, .85)*b for b in box]
    def part():
        v = [rng.gauss(0, 1) for _ in range(3)]
        r = math.sqrt(sum(x*x for x in v))
        return dict(x=inside(), l=[x/r for x in v], ws=rng.uniform(.5, 2), wc=rng.uniform(.5, 2), nz=rng.uniform(1e-4, 1e-3))
    s = dict(fn='compute_3pcf_window' if fn == 'wide' else fn, space=space, box=box, n=n, assignment=rng.choice(['ngp', 'cic', 'tsc', 'pcs']),
             inter=rng.random() < .3, align='centre', padscale='box', padfactor=0., ctype=ctype,
             stat={'fourier': 'bispec', 'config': '3pcf'}[space] if ctype != 'random' else '3pcf-win', e=e, norm=rng.choice(['none', 'particle']))
    if ctype != 'random':
        s['cat'] = [part() for _ in range(rng.randint(3, 12))]
    if ctype != 'sim':
        s['ran'] = [part() for _ in range(rng.randint(4, 16))]
    if fn == 'wide':
        s['wa'] = rng.choice([[1, 0], [1, 1], [0, 2]])
    return s, nb


def run(ctx):
    ctx.build(ext=True)
    rng = ctx.rng
    # the forms themselves: every number of bins, index and kind of table
    space = [dict(nb=nb, form=f, idx=i, equal=q) for nb in range(1, ctx.pick(6, 9)) for q in (True, False)
             for f, i in [('diag', 0), ('full', 0)] + [('row', k) for k in range(nb)] + [('off-diag', k) for k in range(1 - nb, nb)]]
    forms = {(s['nb'], s['form'], s['idx'], s['equal']): o['entries'] for s, o in zip(space, ctx.oracle('Forms', space, cfgx=INV))}
    jobs, meta = [], []
    for j in range(ctx.pick(60, 600)):
        s, nb = measurement(rng, j)
        l = DEG[(j//2) % len(DEG)]
        eq = l[0] == l[1]
        reqs = [dict(degrees=list(l), form='full', idx=0)]
        if not eq:
            reqs.append(dict(degrees=[l[1], l[0], l[2]], form='full', idx=0))
        alls = [('diag', 0)] + [('row', k) for k in range(nb)] + [('off-diag', k) for k in range(1 - nb, nb)]
        for f, k in alls:
            reqs.append(dict(degrees=list(l), form=f, idx=k))
        for r in reqs:
            r['mode'] = rng.choice([0, 1, 2]) if s['norm'] == 'particle' else rng.choice([0, 2])
        jobs.append(dict(s, reqs=reqs))
        meta.append((nb, l, eq))
    res = ctx.drive('d_forms.py', jobs, procs=6)
    for d, (nb, l, eq), g in zip(jobs, meta, res):
        four = d['space'] == 'fourier'
        c, cnt = ('k', 'nmodes') if four else ('r', 'npairs')
        raw, shot = ('bk_raw', 'bk_shot') if four else ('zeta_raw', 'zeta_shot')
        cols = [f'{c}1_bin', f'{c}2_bin', f'{c}1_eff', f'{c}2_eff', f'{cnt}_1', f'{cnt}_2', raw, shot]
        ctx.traces += 1
        name = d['fn'] + (':wide' if 'wa' in d else '')
        if 'out' not in g:
            ctx.violation(f'{name}:crash', f'{name} degrees {l}: {g}', d)
            continue
        base = None
        for r, o in zip(d['reqs'], g['out']):
            ctx.act(f'{name}:{r["form"]}{"=" if eq else ""}')
            key = f'{name}:{r["form"]}:{"eq" if eq else "ne"}'
            what = f'{name} degrees {r["degrees"]} form {r["form"]} {r["idx"]} over {nb} bins'
            if 'res' not in o:
                ctx.violation(key, f'{what}: {o["err"]}', [d, r])
                continue
            o = o['res']
            ents = forms[nb, r['form'], r['idx'], eq]
            if any(len(o[k]) != len(ents) for k in cols):
                ctx.violation(key + ':length', f'{what}: {[len(o[k]) for k in cols]} values for {len(ents)} entries', [d, r])
                continue
            val = lambda o, k: [complex(*o[x][k]) if isinstance(o[x][k], list) else o[x][k] for x in cols]
            table = {tuple(e): val(o, k) for k, e in enumerate(ents)}
            if base is None:
                base = dict(table)
                if eq:
                    for (a, b), v in table.items():
                        base[b, a] = [v[1], v[0], v[3], v[2], v[5], v[4], v[6], v[7]]
                scale = {x: max([abs(v[q]) for v in base.values() if v[q] == v[q]] + [1e-300]) for q, x in enumerate(cols)}
            elif r['degrees'] != list(l):
                table = {(b, a): [v[1], v[0], v[3], v[2], v[5], v[4], v[6], v[7]] for (a, b), v in table.items()}
                what += ' (exchanged)'
            for e, v in table.items():
                w = base[e]
                tol = {x: 1e-8*scale[x] + (1e-12*scale[raw] if x == shot else 0) for x in cols}
                diff = [x for x, a, b in zip(cols, v, w) if not (a == b or (a != a and b != b) or abs(a - b) <= tol[x])]
                if diff:
                    ctx.violation(key + ':' + diff[0], f'{what}: entry {e} is {dict(zip(cols, v))}, in the full table {dict(zip(cols, w))}', [d, r])
                    break
    ctx.sample(dict(measurement={k: v for k, v in jobs[0].items() if k not in ('cat', 'ran')}))
    ctx.extra['forms'] = len(space)
