"""C22: multipoles, window-convolution coefficients and formulae against Formulae.tla."""
INV = ''.join(f'INVARIANT {x}\n' for x in ['Emit', 'Total', 'Laws', 'Covers'])
HOW = ['digits', 'commas', 'spaces', 'strings', 'mixed', 'pole', 'twice', 'tuple']


def live(l):
    return sum(l) % 2 == 0 and 2*max(l) <= sum(l)


def how(rng, idx, key=False):
    h = rng.choice(HOW + ([] if key else ['list']) + (['int'] if len(idx) == 1 else []))
    if h == 'digits' and max(idx) > 9 or len(idx) == 1 and h in ('commas', 'spaces') and max(idx) > 9:
        return 'tuple'
    return h


def build(rng):
    two = rng.random() < .4
    p = lambda: [rng.choice([0, 1, 2, 4, 10, 11]) if two else 0] if two else [rng.choice([0, 0, 1, 1, 2, 3, 12]) for _ in range(3)]
    if not two and rng.random() < .7:
        p = lambda: [rng.randint(0, 2) for _ in range(3)]
    pool = [p() for _ in range(rng.randint(1, 7))]
    ents = []
    for _ in range(rng.randint(1, 5)):
        ts = []
        for k in range(rng.choice([0, 1, 2, 3, 4, 5])):
            q, z = rng.choice(pool), [-1] if rng.random() < .2 else rng.choice(pool)
            c = [rng.choice([1, 1, -1, 2, -3, 5, 0 if k else 1, 12]), rng.choice([1, 1, 1, 3, 7, 4])]
            ch = rng.choice(['frac', 'int', 'str', 'sympy'])
            ts.append(dict(q=q, z=z, c=c, how=[how(rng, q), how(rng, z) if z != [-1] else '', ch, rng.random() < .3]))
        l = rng.choice(pool)
        ents.append(dict(l=l, terms=ts, how=how(rng, l, True)))
    return dict(kind='build', entries=ents, ask=[how(rng, pool[0]) if max(max(x) for x in pool) < 10 else 'tuple' for _ in range(5)])


def run(ctx):
    ctx.build(ext=True)
    rng = ctx.rng
    top = ctx.pick(2, 2)
    poles = [[a, b, c] for a in range(4) for b in range(4) for c in range(4) if live([a, b, c])]
    small = [p for p in poles if max(p) <= 2]
    tri = [(l, q, z) for l in small for q in small for z in small]
    if ctx.quick:
        tri = rng.sample(tri, min(len(tri), 500))
    allp = [[a, b, c] for a in range(3) for b in range(3) for c in range(3)]
    # targets whose own symbol vanishes have no terms
    tri += [(rng.choice(allp), rng.choice(small), rng.choice(small)) for _ in range(60)]
    tri += [(rng.choice(poles), rng.choice(small), rng.choice(small)) for _ in range(ctx.pick(100, 1500))]
    sc = [dict(kind='coeff', l=l, q=q, z=z) for l, q, z in tri]
    sc += [dict(kind='coeff', l=l, q=q, z=[-1]) for l in small for q in rng.sample(small, 3) + [l]]
    for s in sc:
        s['how'] = [how(rng, s['l']), how(rng, s['q']), how(rng, s['z'])]
    for _ in range(ctx.pick(60, 600)):
        ms = [[rng.randint(0, 3) for _ in range(3)] for _ in range(6)] + [[rng.choice([0, 2, 4, 10, 12])] for _ in range(3)]
        if rng.random() < .4:
            ms += [[rng.randint(0, 12) for _ in range(3)] for _ in range(3)]
        if rng.random() < .3:
            ms += [[rng.randint(0, 2), rng.randint(0, 2)]]
        ms += rng.sample(ms, 3)
        rng.shuffle(ms)
        sc.append(dict(kind='order', m=ms, how=[how(rng, x) for x in ms]))
    sc += [build(rng) for _ in range(ctx.pick(400, 5000))]
    sc += [dict(kind='named', name='wilson', full='wilson+16'), dict(kind='named', name='sugiyama', full='sugiyama+19')]
    exp = ctx.oracle('Formulae', [{k: v for k, v in s.items() if k not in ('how', 'ask', 'full')} if s['kind'] != 'build' else
                                  dict(kind='build', entries=[dict(l=e['l'], terms=[{k: t[k] for k in 'qzc'} for t in e['terms']]) for e in s['entries']]) for s in sc], cfgx=INV)
    res = ctx.drive('d_formulae.py', sc, procs=8)
    for s, g, o in zip(sc, res, exp):
        ctx.traces += 1
        k, o = s['kind'], o['r']
        ctx.act(k)
        if 'crash' in g:
            ctx.violation(f'{k}:crash', f'{g}', s)
            continue
        if k == 'coeff':
            w = o['c'][0]/o['c'][1]
            if abs(g['c'] - w) > 1e-12*max(1, abs(w)) or abs(g['s'] - w) > 1e-12*max(1, abs(w)):
                ctx.violation('coefficient', f'coefficient of Q_{s["q"]} Z_{s["z"]} in {s["l"]} is {g} instead of {o["c"]}', [s, g])
        elif k == 'order':
            bad = [(a, b) for a in range(len(s['m'])) for b in range(len(s['m'])) if g['cmp'][a][b] != o['cmp'][a][b]]
            if bad:
                a, b = bad[0]
                ctx.violation('order', f'{s["m"][a]} against {s["m"][b]} is {g["cmp"][a][b]} instead of {o["cmp"][a][b]}', [s, bad])
            if g['n'] != len(set(map(tuple, s['m']))):
                ctx.violation('hash', f'{g["n"]} distinct multipoles in {s["m"]}', s)
            for m, (t, ab, ix, last, rep) in zip(s['m'], g['text']):
                if (t, ab, ix, last, rep) != (','.join(map(str, m)), ''.join(map(str, m)), m, m[-1], True):
                    ctx.violation('text', f'multipole {m} shows as {t}, {ab}, {ix}, {last}', s)
        elif k == 'named':
            want = {tuple(l): {(tuple(t['q']), tuple(t['z'])): t['c'] for t in ts} for l, ts in zip(o['l'], o['terms'])}
            got = {tuple(l): {(tuple(t[0]), tuple(t[1])): t[2] for t in ts} for l, ts in zip(g['l'], g['terms'])}
            n = [len(ts) for ts in g['terms']]
            if want != got or g['l'] != o['l'] or n != [len(x) for x in want.values()]:
                bad = [(l, t, got.get(l, {}).get(t), want.get(l, {}).get(t)) for l in set(want) | set(got) for t in set(want.get(l, {})) | set(got.get(l, {})) if want.get(l, {}).get(t) != got.get(l, {}).get(t)]
                ctx.violation(f'named:{s["name"]}', f'{s["name"]}: multipoles {g["l"]} instead of {o["l"]}; differing (multipole, term, coefficient, instead of): {bad[:4]}', [g, o])
        else:
            w = dict(l=o['l'], q=o['q'], z=o['z'] + ([[-1]] if o['ic'] else []), terms=[[[t['q'], t['z'], t['c'], t['q'], t['z']] for t in ts] for ts in o['terms']], copy=True)
            bad = [x for x in w if g[x] != w[x]]
            if [''.join(x.split()) for x in g['tex']] != [''.join(x.split()) for x in o['tex']]:
                bad.append('tex')
                w['tex'] = o['tex']
            if bad:
                ctx.violation(f'build:{bad[0]}', f'{bad[0]} of formulae: {g[bad[0]]} instead of {w[bad[0]]}', [s, g, o])
    ctx.sample(sc[0])
    ctx.sample(sc[-3])
