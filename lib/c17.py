"""C17: the stand-alone program against Program.tla and the Python interface."""
import itertools
import json
import math
from c16 import U, ELL3, NOSAMP, bins, catalogues, clear, cutoff, floor, same  # noqa: F401

CFG = 'INVARIANT PEmit\nINVARIANT Yields\nINVARIANT Replays\nPROPERTY Safe\nPROPERTY Kept\n'
RUNS = [('powspec', 'survey'), ('powspec', 'sim'), ('2pcf', 'survey'), ('2pcf', 'sim'), ('2pcf-win', 'random'), ('bispec', 'survey'), ('bispec', 'sim'), ('3pcf', 'survey'), ('3pcf', 'sim'),
        ('3pcf-win', 'random'), ('3pcf-win-wa', 'random'), ('modes', 'none'), ('pairs', 'none'), ('modes', 'sim'), ('pairs', 'sim')]
space = lambda stat: 'fourier' if stat in ('powspec', 'bispec', 'modes') else 'config'
three = lambda stat: stat[:2] in ('bi', '3p')


def settings(rng, stat, ctype, cats, data, rand, tags, dirs):
    sp = space(stat)
    th = three(stat)
    b = bins(rng, sp)
    form = rng.choice(['diag', 'full', 'row', 'off-diag'])
    if rng.random() < .2 and (not th or form == 'diag'):
        b.update(scheme=rng.choice(['linpad', 'logpad']), nb=rng.choice([7, 8]))
        b['hi'] = rng.randint(450, 750) if sp == 'fourier' else rng.randint(48, 110) * 1000
    elif rng.random() < .2 and sp == 'config' and (not th or form == 'diag'):
        b.update(scheme='custom', nb=rng.choice([7, 8, 9]), hi=rng.randint(52, 110) * 1000)
    derived = ctype != 'none' and rng.random() < .4
    exp = rng.choice([[11, 10], [13, 10], [7, 5]] + ([[1, 1]] if ctype == 'sim' else []))
    box = [0, 0, 0] if derived else [rng.randint(58, 85) for _ in range(3)]
    p = dict(box=box, grid=[rng.randint(5, 8) for _ in range(3)], cut=[0, 0], expand=exp, align=rng.choice(['centre', 'centre', 'pad']), padscale=rng.choice(['box', 'grid']), pad=[0, 1],
             assign=rng.choice(['ngp', 'cic', 'tsc', 'pcs']), inter=rng.random() < .4, ell=rng.choice([e for e in ELL3 if e[2] % 2 == 0] if ctype == 'sim' else ELL3), form=form,
             idx=rng.choice([0, 1, -1] if form == 'off-diag' else [0, 1]), binning=b['scheme'], lo=b['lo'], hi=b['hi'], nb=b['nb'], norm=rng.choice(['none', 'particle', 'particle', 'mesh']),
             dir=rng.choice([''] + dirs), tag=rng.choice(tags), stat=stat)
    p['pad'] = rng.choice([[1, 9], [1, 50]]) if p['padscale'] == 'box' else rng.choice([[1, 1], [5, 4]])
    if rng.random() < .5:
        ref = cats[(data if ctype == 'sim' else rand) - 1] if derived else None
        cut = cutoff(rng, sp, [x * exp[0] / exp[1] for x in ref['span']] if derived else box)
        if cut and all((L * cut[0] / cut[1] / math.pi if sp == 'fourier' else 2 * L * cut[1] / cut[0]) < 13 for L in ([x * exp[0] / exp[1] for x in ref['span']] if derived else box)):
            p.update(grid=[0, 0, 0], cut=cut)
    if ctype == 'survey' and not th and rng.random() < .3:
        p['norm'] = 'mesh-mixed'
    return p


def evens(n):
    return n + n % 2


def brim(p, g, cats):
    """Whether some separation of a mesh lies where rounding decides its bin."""
    k = g['data']['cat'] if g['ctype'] == 'sim' else g['rand']['cat']
    if space(p['stat']) == 'fourier' or p['box'][0] or not k or not (p['grid'][0] or p['cut'][1]):
        return False
    L = [w * p['expand'][0] / p['expand'][1] for w in cats[k - 1]['span']]
    N = [n or evens(math.ceil(2 * x * p['cut'][1] / p['cut'][0])) for n, x in zip(p['grid'], L)]
    r2 = {sum((L[a] / N[a] * m[a]) ** 2 for a in range(3)) for m in itertools.product(*[range(n // 2 + 1) for n in N])}
    edges = [p['lo'] / 1000 + (p['hi'] - p['lo']) / 1000 * n / p['nb'] for n in range(p['nb'] + 1)] if p['nb'] > 0 else []
    return any(abs(math.sqrt(x) - e) < 1e-6 for x in r2 for e in edges)


def tied(p, g, cats):
    """Whether some particle lies where rounding decides its grid cell, or a separation where it decides its bin."""
    if brim(p, g, cats):
        return True
    if p['assign'] != 'ngp':
        return False
    k = g['data']['cat'] if g['ctype'] == 'sim' else g['rand']['cat']
    if not k or p['assign'] != 'ngp':
        return False
    ref = cats[k - 1]
    ks = [x for x in (g['data']['cat'] if g['ctype'] != 'random' else 0, g['rand']['cat'] if g['ctype'] != 'sim' else 0) if x]
    for a in range(3):
        L = p['box'][a] or ref['span'][a] * p['expand'][0] / p['expand'][1]
        c = p['cut']
        if not p['grid'][a] and not c[1]:
            return False
        n = p['grid'][a] or (evens(math.ceil(L * c[0] / c[1] / math.pi)) if space(p['stat']) == 'fourier' else evens(math.ceil(2 * L * c[1] / c[0])))
        xs = [q[a] for q in ref['pos']]
        for j in ks:
            xs2 = [q[a] for q in cats[j - 1]['pos']]
            for off in ((min(xs) + max(xs)) / 2 - L / 2, min(xs) - L * p['pad'][0] / p['pad'][1], min(xs) - L / n * p['pad'][0] / p['pad'][1], min(xs + xs2) - L * p['pad'][0] / p['pad'][1], min(xs + xs2) - L / n * p['pad'][0] / p['pad'][1]):
                for x in xs2:
                    u = 2 * (x - off) * n / L
                    if abs(u - round(u)) < 1e-6:
                        return True
    return False


STRAY = ['gone/vecs.dat', 'lost/v']      # in folders that are not there


def spoil(rng, p, g):
    """Make a configuration unacceptable (or merely odd)."""
    k = rng.randrange(16)
    if k == 15:
        g['bvec'] = rng.choice(STRAY)
    elif k == 0:
        p['stat'] = rng.choice(['xyz', '2pcf-win', 'powspec', '3pcf-win'])
    elif k == 1:
        g['ctype'] = rng.choice(['none', 'random', 'survey', 'sim', 'box'])
    elif k == 2:
        p[rng.choice(['assign', 'form', 'norm', 'align'])] = 'xyz'
    elif k == 3:
        p['nb'] = rng.choice([0, 1])
        p['idx'] = 0
    elif k == 4:
        p['lo'] = p['hi'] + rng.choice([0, 10])
    elif k == 5:
        p.update(align='pad', pad=rng.choice([[1, 1], [3, 2]]), padscale='box')
    elif k == 6:
        p.update(align='pad', pad=[30, 1], padscale='grid')
    elif k == 7:
        p.update(grid=[0, 0, 0], cut=[0, 0])
    elif k == 8:
        p['idx'] = p['nb']
    elif k == 9:
        p['norm'] = 'mesh-mixed'
    elif k == 10:
        p['dir'] = 'blocked'
    elif k == 12:
        p.update(binning='custom', nb=rng.choice([6, 7]), hi=rng.choice([50000, p['hi']]))
    elif k == 11:
        p.update(form='row', idx=-1)
    else:
        g[rng.choice(['data', 'rand'])]['state'] = rng.choice(['unset', 'missing', 'folder', 'narrow', 'partmissing'])


def scenario(rng, run=None):
    cats = catalogues(rng)
    for c in cats:
        if not c['nz']:
            c['nz'] = [round(rng.uniform(1e-4, 4e-4), 6) for _ in range(c['n'])]
    dirs = ['out', 'out/deep', 'new/er', 'o.d']
    tags = rng.sample(['', '_a', '_b', '_z0.5', '.v1', '_1'], 3)
    psets, progs, spoilt = [], [], []
    for m in range(rng.randint(2, 4)):
        while True:
            stat, ctype = run if run and m == 0 else rng.choice(RUNS)
            data, rand = rng.choice([1, 2]), rng.choice([3, 4])
            p = settings(rng, stat, ctype, cats, data, rand, tags, dirs)
            names = ['x', 'y', 'z', 'nz', 'ws', 'wc']
            for k in ('ws', 'wc') + (('nz',) if ctype == 'sim' else ()):
                if rng.random() < .2:
                    names.remove(k)
            if rng.random() < .3:
                names.append('other')
            if rng.random() < .5:
                rng.shuffle(names)
            st = lambda: rng.choice(['whole', 'whole', 'whole', 'parts'])
            # catalogues that are not needed may be given or not
            g = dict(set=m + 1, ctype=ctype, data=dict(cat=data, state=st()), rand=dict(cat=rand, state=st()), names=names, cols=sorted(set(names) & {'nz', 'ws', 'wc'}),
                     bvec=rng.choice(['', '', 'true', 'vecs.dat', 'sub.vecs']) if ctype != 'none' or rng.random() < .5 else '', wa=[rng.choice([0, 1]), rng.choice([0, 1, 2])] if stat == '3pcf-win-wa' else [], style=rng.randrange(30))
            if not tied(p, g, cats):
                break
        sp = rng.random() < .22 and not (run and m == 0)
        if sp:
            spoil(rng, p, g)
            if g['ctype'] != ctype and (not p['grid'][0] or not p['box'][0] or (g['ctype'] == 'sim' and p['ell'][2] % 2)):
                p['stat'] = 'xyz'
            if 'nz' not in g['cols'] or tied(p, g, cats) or (g['ctype'] != 'sim' and p['expand'] == [1, 1]) or (p['stat'] == '3pcf-win-wa') != bool(g['wa']) or space(p['stat']) != space(stat):
                # (combinations whose outcome the specification does not speak about)
                if not (p['stat'] == 'xyz' or p['dir'] == 'blocked'):
                    p['stat'] = 'xyz'
        psets.append(p)
        progs.append(g)
        spoilt.append(sp)
    ops = []
    for n in range(len(progs)):
        ops.append(dict(args='file', prog=n + 1, tag='-', threads=rng.choice([1, 1, 2, 4])))
    for n in range(len(progs)):
        if rng.random() < .6:
            ops.append(dict(args='used', prog=n + 1, tag='-', threads=1))
    n = rng.randrange(len(progs))
    if progs[n]['bvec'] == '' and psets[n]['stat'] not in ('modes', 'pairs') and rng.random() < .5:
        ops.append(dict(args='file', prog=n + 1, tag=rng.choice(tags + ['_env']), threads=1))
    ops.append(dict(args=rng.choice(['none', 'missing', 'unknown', 'help', 'version']), prog=1, tag='-', threads=1))
    script = [1] + [rng.randint(1, len(ops)) for _ in range(rng.randint(2, 5))]
    return dict(cats=cats, psets=psets, progs=progs, ops=ops, script=script, length=len(script), dirs=['out', 'out/deep', 'o.d'], blocked=['blocked'])


def strip(s):
    return dict(cats=[dict(span=c['span']) for c in s['cats']], psets=s['psets'], progs=[{k: v for k, v in g.items() if k not in ('names', 'style')} for g in s['progs']], ops=s['ops'], script=s['script'],
                length=s['length'], blocked=s['blocked'], stray=STRAY)


def used(s):
    return [[*([p['dir']] if p['dir'] else ['.']), 'parameters_used' + p['tag']] for p in (s['psets'][g['set'] - 1] for g in s['progs'])]


def fields(lines):
    d = {}
    for l in lines:
        if ': ' in l and not l.startswith('['):
            a, b = l.split(': ', 1)
            d[a] = b
    return d


def numbers(t):
    import re
    return [float(x) for x in re.findall(r'[-+]?\d+\.?\d*(?:e[-+]?\d+)?', t)]


def headers(got, ref, want):
    """First difference of the header of a measurement from what is specified and from that of the Python interface."""
    try:
        g, r = fields(got), fields(ref)
        if g['Box alignment'] != want['align']:
            return f'alignment {g["Box alignment"]}'
        if g['Mesh number'] != str(want['grid']):
            return f'mesh number {g["Mesh number"]}'
        if g['Mesh assignment and interlacing'] != want['mesh']:
            return f'mesh {g["Mesh assignment and interlacing"]} instead of {want["mesh"]}'
        cols = [x.split('] ', 1)[1] for x in got[-1].split(', ')]
        if cols != want['columns']:
            return f'columns {cols}'
        if got[-1] != ref[-1]:
            return f'columns {got[-1]} instead of {ref[-1]}'
        for k in r:
            if 'source' in k:
                continue
            if 'extents' in k or 'size' in k or 'factor' in k:
                a, b = numbers(g[k]), numbers(r[k].replace('; n/a', ''))
                if len(a) != len(b) or any(abs(x - y) > 1e-7 * max(abs(y), 1e-4) + (1.1e-3 if 'factor' not in k else 0) for x, y in zip(a, b)):
                    return f'{k}: {g[k]} instead of {r[k]}'
        if g['Normalisation factor'].split()[1] != r['Normalisation factor'].split()[1]:
            return 'normalisation'
    except (KeyError, ValueError, IndexError) as e:
        return f'malformed header ({e!r})'
    return ''


def tables(got, ref, stat, low):
    if len(got) != len(ref) or len(got[0]) != len(ref[0]):
        return f'{len(got)} x {len(got[0])} table instead of {len(ref)} x {len(ref[0])}'
    first = len(ref[0]) - {'powspec': 4, '2pcf': 2, '2pcf-win': 2}.get(stat, 4)
    whole = max([x for x in (math.hypot(r[c], r[c + 1]) for r in ref for c in range(first, len(r), 2)) if math.isfinite(x)] + [0.])
    for n, (x, y) in enumerate(zip(got, ref)):
        for c, (a, b) in enumerate(zip(x, y)):
            tol = 2e-8 * whole + low if c >= first else 3e-9 * abs(b)
            if (math.isfinite(a) or math.isfinite(b)) and not abs(a - b) <= tol:
                return f'row {n}, column {c}: {a} instead of {b}'
    return ''


def run(ctx):
    ctx.build(ext=True, program=True)
    rng = ctx.rng
    scen = [scenario(rng, r) for r in RUNS * ctx.pick(2, 16)]
    while len(scen) < ctx.pick(110, 1500):
        scen.append(scenario(rng))
    exp = ctx.oracle('Program', [strip(s) for s in scen], cfgx='INVARIANT Names\n' + CFG, defs='Names == (pc = 0 /\\ i = 1) => (NamesApart /\\ ProgNamesApart)', spec='PSpec')
    refs, uniq = [], {}
    key = lambda e, s: json.dumps([e['req'], s['cats']], sort_keys=True)
    for s, o in zip(scen, exp):
        s['used'] = used(s)
        s['watch'] = [[dict(file=e['file'], kind=e['kind']) for e in st['writes']] for st in o['log']]
        for st in o['log']:
            for e in st['writes']:
                if e['kind'] != 'used' and key(e, s) not in uniq:
                    uniq[key(e, s)] = len(refs)
                    refs.append(dict(req=e['req'], cats=s['cats'], saved=e['kind'] == 'measurement'))
    env = ctx.pyenv(OMP_NUM_THREADS='1')
    got = ctx.drive('d_program.py', scen + refs, procs=8, timeout=800, env=env)
    got, base = got[:len(scen)], got[len(scen):]
    for q, g in zip(refs, base):
        if 'res' not in g:
            if 'triumvirate/' not in g.get('tail', 'triumvirate/'):
                raise Exception(g)
            ctx.violation('python ' + q['req'].get('fn', 'record'), f'the Python interface fails where the program should not: {g.get("exception") or g.get("crash")}', dict(request=q['req']))
    for s, o, g in zip(scen, exp, got):
        ctx.traces += 1
        if 'steps' not in g:
            raise Exception(g)
        for n, (e, a) in enumerate(zip(o['log'], g['steps'])):
            c = s['ops'][o['picks'][n] - 1]
            gp = s['progs'][c['prog'] - 1]
            p = s['psets'][gp['set'] - 1]
            what = f'{p["stat"]} {gp["ctype"]}' if c['args'] in ('file', 'used') else c['args']
            ctx.act(f'{what}: {"measured" if e["ok"] else "refused"}')
            bad = lambda msg: ctx.violation(f'{what}: {msg[:40]}', f'run {n + 1} ({c["args"]}, {what}): {msg}',
                                            dict(step=n + 1, script=[s['ops'][k - 1] for k in o['picks']], psets=s['psets'], progs=s['progs'], cats=s['cats'], expected=e, output=a.get('tail')))
            if a['rc'] == 'timeout' or (a['rc'] == 0) != e['ok']:
                bad(f'status {a["rc"]} where it should {"" if e["ok"] else "not "}be zero')
                break
            if a['gone']:
                bad(f'removes {a["gone"]}')
                break
            want = {w['file']: w for w in e['writes']}
            extra = [f for f in a['files'] if f not in want]
            if extra:
                bad(f'writes {extra}, not only {sorted(want)}')
                break
            msg = ''
            for f, w in want.items():
                l = a['loads'][f]
                if l['kind'] == 'unreadable':
                    msg = f'{f} is unreadable: {l["err"]}'
                elif w['kind'] == 'measurement':
                    b = base[uniq[key(w, s)]]
                    if 'res' not in b:
                        continue
                    msg = tables(l['table'], b['file']['table'], w['req']['stat'], floor(w['req']))
                    msg = msg or headers(l['header'], b['file']['header'], w['head'])
                    msg = msg and f'{f} differs from the Python interface: {msg}'
                elif w['kind'] == 'vectors':
                    b = base[uniq[key(w, s)]]
                    if 'res' not in b:
                        continue
                    r = b['res']
                    rows = sorted(map(list, zip(*[r[k]['re'] for k in ('index', 'lower_edge', 'upper_edge', 'vecx', 'vecy', 'vecz')])))
                    if len(rows) != len(l['rows']):
                        msg = f'{f} holds {len(l["rows"])} vectors instead of {len(rows)}'
                    else:
                        rnd = lambda rs: sorted([[r[0]] + [float(f'{v:.6e}') + 0. for v in r[1:]] for r in rs])
                        msg = next((f'{f} holds {x} instead of {y}' for x, y in zip(rnd(l['rows']), rnd(rows)) if any(abs(u - v) > 3e-6 * max(1e-3, abs(v)) for u, v in zip(x, y))), '')
                if msg:
                    break
            if msg:
                bad(msg)
                break
        ctx.sample(dict(runs=[dict(args=s['ops'][k - 1]['args'], stat=s['psets'][s['progs'][s['ops'][k - 1]['prog'] - 1]['set'] - 1]['stat']) for k in o['picks']],
                        outcomes=[('measured ' if e['ok'] else 'refused ') + ', '.join(w['file'] for w in e['writes']) for e in o['log']]))
    ctx.assumptions += ['survey-type catalogues come with number densities', 'particles away from where rounding decides the grid cell they are assigned to']
