"""C18: resource counters of the library against Accounting.tla, over life cycles of objects with failures and whole measurements."""
INV = 'INVARIANT Emit\nINVARIANT Baseline\nINVARIANT NonNegative\nINVARIANT MaxBounds\n'
KINDS = ['powspec', '2pcf', 'powspec-box', '2pcf-box', '2pcf-win', 'bispec', '3pcf', 'bispec-box', '3pcf-box', '3pcf-win', '3pcf-win-wa', 'norm-p2', 'norm-p3', 'norm-m2', 'norm-m3', 'norm-mm']


def params(rng, kind=None, mesh=None, inter=None):
    n = mesh or [rng.choice([2, 3, 4]) for _ in range(3)]
    p = dict(boxsize=[10., 10., 10.], ngrid=n, assignment=rng.choice(['ngp', 'cic', 'tsc', 'pcs']), interlace=inter or rng.choice(['true', 'false']))
    if kind is None:
        return p
    st = dict(zip(['powspec-box', '2pcf-box', 'bispec-box', '3pcf-box'], ['powspec', '2pcf', 'bispec', '3pcf'])).get(kind, kind)
    if kind.startswith('norm'):
        st = 'bispec' if kind[-1] == '3' else 'powspec'
    win = 'win' in st
    p.update(statistic_type=st, catalogue_type='random' if win else 'sim' if kind.endswith('-box') else 'survey', bin_min=.1, bin_max=3., num_bins=2,
             form=rng.choice(['full', 'diag', 'off-diag', 'row']), idx_bin=rng.choice([0, 1]), norm_convention='mesh' if rng.random() < .3 else 'none')
    if st in ('bispec', '3pcf', '3pcf-win', '3pcf-win-wa'):
        p.update(interlace='false', ngrid=[rng.choice([1, 2, 3]) for _ in range(3)])
        l = rng.choice([(0, 0, 0), (1, 1, 0), (2, 0, 2), (0, 2, 2), (1, 0, 0), (0, 0, 1)])
        p.update(ell1=l[0], ell2=l[1], ELL=l[2])
        if st == '3pcf-win-wa':
            p.update(i_wa=1, j_wa=0)
    else:
        p.update(ELL=rng.choice([0, 1, 2]))
    return p


def history(rng):
    ops, cats, fields, stats, sizes = [], {}, {}, {}, {}
    uid = 0
    mesh = [rng.choice([2, 3, 4]) for _ in range(3)]
    inter = rng.choice(['true', 'false'])
    one = lambda m: rng.choice(sorted(m))
    full = lambda: [c for c in sorted(cats) if cats[c]]
    if rng.random() < .6:   # most measurements need two catalogues, of sizes of their own
        for n in rng.sample(range(1, 7), 2):
            uid += 1
            ops += [dict(op='cat', o=f'c{uid}'), dict(op='load', o=f'c{uid}', n=n, nz=.5)]
            cats[f'c{uid}'], sizes[f'c{uid}'] = n, .5
    for _ in range(rng.randint(4, 25)):
        g = rng.choice(['cat', 'load', 'load', 'badload', 'final', 'field', 'field', 'stats', 'del', 'use', 'use', 'use', 'use', 'two', 'two', 'pair', 'vec', 'bad', 'measure', 'measure', 'measure', 'measure'])
        uid += 1
        if g == 'cat':
            ops.append(dict(op='cat', o=f'c{uid}'))
            cats[f'c{uid}'] = 0
        elif g == 'load' and cats:
            c, n = one(cats), rng.randint(1, 6)
            ops.append(dict(op='load', o=c, n=n, nz=rng.choice([.5, .5, 0])))
            cats[c], sizes[c] = n, ops[-1]['nz']
        elif g == 'badload' and cats:
            c = one(cats)
            how = rng.choice(['sizes', 'none', 'missing', 'column', 'short', 'empty'])
            ops.append(dict(op='badload', o=c, n=0 if how == 'empty' else rng.randint(1, 6), how=how, fails=True))
            # whether particles remain is for the library to say: renew them before further use
            ops.append(dict(op='load', o=c, n=cats[c] or 2, nz=.5))
            cats[c], sizes[c] = ops[-1]['n'], .5
        elif g == 'final' and cats:
            c = one(cats)
            ops.append(dict(op='final', o=c))
            if rng.random() < .5:
                ops[-1]['twice'] = 1
            cats[c] = 0
        elif g == 'field':
            other = rng.random() < .2
            p = params(rng, mesh=[rng.choice([2, 3, 5]) for _ in range(3)] if other else mesh, inter=rng.choice(['true', 'false']) if other else inter)
            how = rng.choice(['own', 'own', 'ext', 'none'])
            f = f'f{uid}'
            ops.append(dict(op='field', o=f, par=p, how=how, nmesh=p['ngrid'][0]*p['ngrid'][1]*p['ngrid'][2], inter=p['interlace'] == 'true'))
            fields[f] = (how != 'none', tuple(p['ngrid']), p['interlace'])
        elif g == 'stats':
            p = params(rng, mesh=mesh, inter=inter)
            plan = rng.random() < .7
            ops.append(dict(op='stats', o=f's{uid}', par=p, plan=plan, nmesh=mesh[0]*mesh[1]*mesh[2], inter=inter == 'true'))
            stats[f's{uid}'] = plan
        elif g == 'del':
            al = sorted(cats) + sorted(fields) + sorted(stats)
            if al:
                o = rng.choice(al)
                ops.append(dict(op='del', o=o))
                for m in (cats, fields, stats):
                    m.pop(o, None)
        elif g == 'use' and fields:
            f = one(fields)
            op = rng.choice(['unweighted', 'fluct', 'ylm1', 'quad1', 'pownorm', 'ylm2', 'quad2', 'fft', 'ifft', 'comp'])
            if op in ('fft', 'ifft') and not fields[f][0]:
                continue
            if op in ('unweighted', 'fluct', 'ylm1', 'quad1', 'pownorm', 'ylm2', 'quad2'):
                if not full():
                    continue
                ops.append(dict(op=op, o=f, c=rng.choice(full()), d=rng.choice(full())))
            else:
                ops.append(dict(op=op, o=f))
        elif g == 'two':
            own = [f for f in fields if fields[f][0]]
            if own:
                f = rng.choice(sorted(own))
                same = [x for x in sorted(fields) if fields[x][1] == fields[f][1]]
                ops.append(dict(op=rng.choice(['band', 'sjl']), o=f, src=rng.choice(same)))
        elif g == 'pair' and stats:
            s = one(stats)
            ok = [f for f in sorted(fields) if fields[f][1] == tuple(mesh) and fields[f][2] == inter]
            if ok:
                a = rng.choice(ok)
                # statistics without a transform of their own use that of the first field
                ops.append(dict(op='p2r' if (stats[s] or fields[a][0]) and rng.random() < .5 else 'p2k', o=s, a=a, b=rng.choice(ok)))
        elif g == 'vec' and stats:
            ops.append(dict(op='binvec', o=one(stats), space=rng.choice(['fourier', 'config'])))
        elif g == 'bad' and stats:
            odd = [f for f in sorted(fields) if fields[f][1] != tuple(mesh)]
            if odd:
                ops.append(dict(op='badp2k', o=one(stats), a=rng.choice(odd), b=one(fields), fails=True))
        elif g == 'measure' and full():
            k = rng.choice(KINDS)
            p = params(rng, k)
            c, d = rng.choice(full()), rng.choice(full())
            if len(full()) > 1 and (k == 'norm-mm' or rng.random() < .7):
                c, d = rng.sample(full(), 2)
            if k == 'norm-mm' and c == d:
                continue
            three = k in ('bispec', '3pcf', 'bispec-box', '3pcf-box', '3pcf-win', '3pcf-win-wa')
            fails = three and (p['ell1'] + p['ell2'] + p['ELL']) % 2 == 1 or k in ('norm-p2', 'norm-p3') and sizes[c] == 0
            grids = 0 if fails or k in ('norm-p2', 'norm-p3') else 1
            ops.append(dict(op='measure', kind=k, par=p, c=c, d=d, nmesh=p['ngrid'][0]*p['ngrid'][1]*p['ngrid'][2], grids=grids, fails=fails))
    if rng.random() < .7:
        al = sorted(cats) + sorted(fields) + sorted(stats)
        rng.shuffle(al)
        ops += [dict(op='del', o=o) for o in al]
    return dict(ops=ops or [dict(op='cat', o='c0')])


def run(ctx):
    ctx.build(cpp=True)
    h = ctx.compile_harness('h_account.cpp')
    rng = ctx.rng
    scen = [history(rng) for _ in range(ctx.pick(1200, 16000))]
    res = ctx.drive(h, scen, procs=8, env=dict(OMP_NUM_THREADS='1'))
    good = [(s, g) for s, g in zip(scen, res) if 'log' in g]
    for s, g in zip(scen, res):
        if 'log' not in g:
            ctx.violation('crash', f'life cycle of objects crashed: {g}', s)
    ask = []
    for s, g in good:
        ops = [{k: v for k, v in o.items() if k != 'par'} for o in s['ops']]
        ask.append(dict(ops=ops, seen=[{k: (v if k != 'cats' else {**v}) for k, v in x.items() if k != 'err'} for x in g['log']]))
    exp = ctx.oracle('Accounting', ask, cfgx=INV)
    for (s, g), o in zip(good, exp):
        ctx.traces += 1
        for k, op in enumerate(s['ops']):
            x = g['log'][k]
            what = op.get('kind', op['op'])
            done = ' '.join(y.get('kind', y['op']) for y in s['ops'][:k + 1])
            ctx.act(what + (':fail' if op.get('fails') else ''))
            if bool(x['err']) != bool(op.get('fails')):
                ctx.violation(f'{what}:outcome', f'{what} {"failed: " + x["err"] if x["err"] else "did not fail"} in {done}', [s, g['log'][:k + 1]])
                break
            if k >= len(o['log']):
                ctx.violation(f'{what}:particles', f'after failing to load, the catalogue holds {x["cats"].get(op["o"])} particles, neither the old, the new nor none ({done})', [s, g['log'][:k + 1]])
                break
            w = o['log'][k]
            bad = [f'{n} = {x[n]} instead of {w[n]}' for n in ('mem', 'c', 'r', 'g') if x[n] != w[n]]
            bad += [f'recorded maximum of {n} = {x["max"][n]} instead of {w["max"][n]}' for n in ('mem', 'c', 'r', 'g') if x['max'][n] != w['max'][n]]
            bad += [f'{"forward" if n == "f" else "backward"} transforms = {x["fft"][n]} instead of {w["fft"][n]}' for n in 'fb' if x['fft'][n] != w['fft'][n]]
            bad += [f'{c} holds {x["cats"].get(c)} particles instead of {n}' for c, n in w['cats'].items() if x['cats'].get(c) != n] if w['cats'] else []
            if bad:
                ctx.violation(f'{what}:{bad[0].split(" =")[0]}', f'after {done}: ' + '; '.join(bad), [s, g['log'][:k + 1]])
                break
        else:
            if g['mem'] or g['c'] or g['r'] or g['g']:
                ctx.violation('baseline', f'counters after destroying everything: memory {g["mem"]}, complex grids {g["c"]}, real grids {g["r"]}', [s, g])
    ctx.sample(scen[2])
