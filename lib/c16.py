"""C16: sessions of measurements against Session.tla."""
import json
import math

CFG = 'INVARIANT SEmit\nINVARIANT Apart\nINVARIANT Repeats\nINVARIANT Silent\nINVARIANT Grids\nPROPERTY KeepsLabel\nPROPERTY Pure\nPROPERTY OneFile\n'
U = -99
FNS = ['compute_powspec', 'compute_corrfunc', 'compute_powspec_in_gpp_box', 'compute_corrfunc_in_gpp_box', 'compute_corrfunc_window', 'compute_bispec', 'compute_3pcf', 'compute_bispec_in_gpp_box',
       'compute_3pcf_in_gpp_box', 'compute_3pcf_window']
three = lambda fn: 'bispec' in fn or '3pcf' in fn
fourier = lambda fn: 'powspec' in fn or 'bispec' in fn
ctype = lambda fn: 'sim' if 'gpp' in fn else 'random' if 'window' in fn else 'survey'
ELL3 = [[0, 0, 0], [1, 1, 0], [2, 0, 2], [1, 1, 2], [0, 2, 2], [2, 2, 0], [1, 0, 1], [0, 1, 1]]
STAT = {'': None, 'powspec': 'survey', '2pcf': 'survey', 'bispec': 'survey', '3pcf': 'sim', '2pcf-win': 'random', '3pcf-win-wa': 'random'}


def catalogues(rng):
    out = []
    for k in range(4):
        ran = k >= 2
        n = rng.randint(6, 9)
        span = [rng.randint(25, 55) for _ in range(3)]
        lo = [rng.choice([0, -30, 100, 400]) + rng.randint(0, 9) for _ in range(3)]
        pos = [[lo[a] + (0 if j == a else span[a] if j == a + 3 else round(rng.uniform(.03, .97) * span[a], 3)) for a in range(3)] for j in range(n)]
        los = []
        for _ in range(n):
            v = [rng.gauss(0, 1) for _ in range(3)]
            r = math.sqrt(sum(x * x for x in v))
            los.append([x / r for x in v])
        nz = [] if k == 1 and rng.random() < .6 else [round(rng.uniform(1e-4, 4e-4), 6) for _ in range(n)]
        out.append(dict(span=span, n=n, pos=pos, los=los, nz=nz, ws=[rng.choice([1., .5, 1.5]) for _ in range(n)], wc=[rng.choice([1., 2., .75]) for _ in range(n)]))
    return out


def clear(x):
    """Not within rounding of a whole number."""
    return abs(x - round(x)) > .01


def cutoff(rng, space, lengths):
    """A Nyquist cutoff away from whole numbers of cells for all of the box sizes."""
    for _ in range(200):
        q = [rng.randint(20, 40), 100] if space == 'fourier' else [rng.randint(70, 200), 10]
        if all(clear(L * q[0] / q[1] / math.pi) if space == 'fourier' else clear(L * q[1] / q[0]) for L in lengths):
            return q
    return None


def bins(rng, sp):
    lo, hi = (rng.randint(30, 120), rng.randint(180, 330)) if sp == 'fourier' else (rng.randint(3000, 9000), rng.randint(15000, 28000))
    return dict(scheme=rng.choice(['lin', 'lin', 'log']), lo=lo, hi=hi, nb=rng.choice([2, 3, 3, 4]))


def params(rng, cats, tags, dirs):
    stat = rng.choice(list(STAT))
    sp = 'fourier' if stat in ('powspec', 'bispec') else 'config' if stat else rng.choice(['fourier', 'config'])
    box = [rng.randint(58, 85) for _ in range(3)] if rng.random() < .65 else [0, 0, 0]
    exp = rng.choice([[1, 1], [11, 10], [13, 10], [7, 5]])
    spans = [x * exp[0] / exp[1] for c in cats for x in c['span']]
    b = bins(rng, sp)
    form = rng.choice(['diag', 'diag', 'full', 'row', 'off-diag'])
    p = dict(box=box, grid=[rng.randint(5, 8) for _ in range(3)], cut=[0, 0], expand=exp, align=rng.choice(['centre', 'centre', 'pad']), padscale=rng.choice(['box', 'grid']), pad=[0, 1],
             assign=rng.choice(['ngp', 'cic', 'tsc', 'pcs']), inter=rng.random() < .4, ell=rng.choice(ELL3), form=form,
             idx=rng.choice([0, 1, -1] if form == 'off-diag' else [0, 1]) if form in ('row', 'off-diag') or rng.random() < .3 else U, binning=b['scheme'], lo=b['lo'], hi=b['hi'], nb=b['nb'], norm=rng.choice(['none', 'particle', 'particle', 'mesh']),
             dir=rng.choice([''] + dirs), tag=rng.choice(tags), stat=stat)
    p['pad'] = rng.choice([[1, 9], [1, 50]]) if p['padscale'] == 'box' else rng.choice([[1, 1], [5, 4]])
    if rng.random() < .4 and (stat or not box[0]):
        cut = cutoff(rng, sp, box if box[0] else spans)
        if cut:
            p.update(grid=[0, 0, 0], cut=cut)
    if stat in ('powspec', '2pcf') and rng.random() < .4:
        p['norm'] = 'mesh-mixed'
    return p, sp


NOSAMP = dict(given=False, box=[], grid=[], cut=[0, 0], expand=[0, 0], align='', assign='', inter='', boxpad=[0, 0], gridpad=[0, 0])
SAVES = ['', '', '.txt', '.npz', '.txt', '.npz', '.TXT', '.NPZ']


LOGGERS = ['', '', 'plain', 'program']


def blank(op):
    return dict(op=op, fn='', set=0, cat=0, ran=0, los=0, deg=[], degstr=False, bin=dict(scheme='', lo=0, hi=0, nb=0), samp=dict(NOSAMP), form='', idx=U, wa=[], save='', logger='')


def measure(rng, psets, cats, spaces):
    c = blank('measure')
    fn = rng.choice(FNS)
    sp, ct = 'fourier' if fourier(fn) else 'config', ctype(fn)
    c.update(fn=fn, set=0 if rng.random() < .15 else rng.randint(1, len(psets)), save=rng.choice(SAVES), degstr=rng.random() < .3, logger=rng.choice(LOGGERS))
    c['cat'] = 0 if ct == 'random' else rng.choice([1, 2])
    if ct == 'survey' and not cats[c['cat'] - 1]['nz']:
        c['cat'] = 1
    c['ran'] = 0 if ct == 'sim' else rng.choice([3, 4])
    c['los'] = 0 if ct == 'sim' else rng.choice([0, 0, 1])
    p = psets[c['set'] - 1] if c['set'] else None
    ref = cats[(c['cat'] if ct == 'sim' else c['ran']) - 1]
    even = [e for e in ELL3 if e[2] % 2 == 0] if ct == 'sim' else ELL3
    if p is None or rng.random() < .4 or p['ell'] not in even:
        e = rng.choice(even)
        c['deg'] = e if three(fn) else [e[2]]
    if p is None or spaces[c['set'] - 1] != sp or rng.random() < .35:
        c['bin'] = bins(rng, sp)
    if three(fn):
        if p is None or rng.random() < .35:
            c['form'] = rng.choice(['diag', 'full', 'row', 'off-diag'])
            if c['form'] in ('row', 'off-diag') and (p is None or p['idx'] == U or rng.random() < .5):
                c['idx'] = rng.choice([0, 1, -1] if c['form'] == 'off-diag' else [0, 1])
        elif rng.random() < .15:
            c['idx'] = rng.choice([0, 1])
        if 'window' in fn and rng.random() < .5:
            c['wa'] = [rng.choice([0, 1]), rng.choice([0, 1, 2])]
    m = dict(NOSAMP)
    if p is None or rng.random() < .5 or (p['grid'][0] == 0 and spaces[c['set'] - 1] != sp) or (p['grid'][0] == 0 and not (p['box'][0] and p['stat'])):
        m['given'] = True
        if (p is None and rng.random() < .8) or rng.random() < .4:
            m['box'] = [rng.randint(58, 85) for _ in range(3)]
        if rng.random() < .3:
            m['expand'] = rng.choice([[1, 1], [11, 10], [13, 10], [7, 5]])
        # grid numbers: settled ones stay, unset ones need a cutoff in the right space
        unset = p is None or (p['grid'][0] == 0 and not (p['box'][0] and p['stat']))
        box = m['box'] or (p and p['box'][0] and p['box'])
        ex = m['expand'] if m['expand'][1] else p['expand'] if p else [1, 1]
        lens = box if box else [x * ex[0] / ex[1] for x in ref['span']]
        if unset and rng.random() < .5:
            cut = cutoff(rng, sp, lens)
            if cut:
                m['cut'] = cut
        if (unset and not m['cut'][1]) or rng.random() < .25:
            m['grid'] = [rng.randint(5, 8) for _ in range(3)]
        for a, v in (('align', ['centre', 'pad']), ('assign', ['ngp', 'cic', 'tsc', 'pcs']), ('inter', ['true', 'false'])):
            if rng.random() < .35:
                m[a] = rng.choice(v)
        if rng.random() < .25 or (p is None and m['align'] == 'pad'):        # padding always comes with an amount
            k = rng.choice(['boxpad', 'gridpad'])
            m[k] = rng.choice([[1, 9], [1, 25]]) if k == 'boxpad' else rng.choice([[1, 1], [5, 4]])
    c['samp'] = m
    return c


def spoil(rng, c):
    """An argument that must be refused, or at least may be missing."""
    k = rng.randrange(6)
    if k == 0:
        c['samp'] = dict(c['samp'], given=True, assign='xyz')
    elif k == 1 and three(c['fn']):
        c['form'] = 'oblique'
    elif k == 2 and three(c['fn']):
        c.update(form='row', idx=9)
    elif k == 3:
        c['save'] = '.csv'
    elif k == 4:
        c['samp'] = dict(c['samp'], given=True, align='pad', boxpad=[1, 10], gridpad=[1, 1])
    else:
        c.update(set=0)
        c[rng.choice(['deg', 'deg', 'samp'])] = []
        if not c['samp']:
            c['samp'] = dict(NOSAMP)


def record(rng, psets):
    c = blank('record')
    j = rng.randrange(len(psets))
    p = psets[j]
    sp = rng.choice(['fourier', 'config'])
    c.update(set=j + 1, box=[], grid=[], bin=dict(bins(rng, sp), space=sp))
    if not p['box'][0] or rng.random() < .5:
        c['box'] = [rng.randint(58, 85) for _ in range(3)]
    if p['grid'][0] == 0 or rng.random() < .5:
        c['grid'] = [rng.randint(3, 5) for _ in range(3)]
    return c


def update(rng, psets, tags, dirs):
    c = blank('update')
    j = rng.randrange(len(psets))
    p = psets[j]
    new = {}
    for k in rng.sample(['tag', 'dir', 'assign', 'ell', 'norm', 'align', 'nb'], rng.choice([1, 2])):
        new[k] = dict(tag=rng.choice(tags), dir=rng.choice([''] + dirs), assign=rng.choice(['ngp', 'cic', 'tsc', 'pcs']), ell=rng.choice(ELL3), norm=rng.choice(['none', 'particle', 'mesh']),
                      align='centre', nb=rng.choice([2, 3, 4]))[k]
    c.update(set=j + 1, new=new, how=rng.randrange(3))
    return c


def scenario(rng, explore):
    cats = catalogues(rng)
    dirs = ['out', 'out/deep', 'o.d']
    tags = rng.sample(['', '_a', '_b', '_z0.5', '_z0.7', '_a.b', '_NGC', '_1', '.v1', '.txt'], 3)
    ps = [params(rng, cats, tags, dirs) for _ in range(rng.randint(1, 3) if not explore else 2)]
    psets, spaces = [p for p, _ in ps], [s for _, s in ps]
    ops = []
    for _ in range(rng.randint(4, 8) if not explore else 5):
        r = rng.random()
        if r < .1:
            ops.append(record(rng, psets))
        elif r < .2 and not explore:
            ops.append(update(rng, psets, tags, dirs))
        elif ops and r < .5 and ops[-1]['op'] == 'measure':        # a relative of an earlier call
            c = json.loads(json.dumps(rng.choice([o for o in ops if o['op'] == 'measure'])))
            k = rng.randrange(4)
            if k == 0:
                c['save'] = rng.choice(SAVES)
            elif k == 1:
                c['los'] = 0 if ctype(c['fn']) == 'sim' else 1 - c['los']
            elif k == 2 and c['ran']:
                c['ran'] = 7 - c['ran']
            elif k == 3 and 'window' in c['fn'] and three(c['fn']):
                c['wa'] = [] if c['wa'] else [1, 0]
            ops.append(c)
        else:
            ops.append(measure(rng, psets, cats, spaces))
            if rng.random() < .1:
                spoil(rng, ops[-1])
    if all(o['op'] != 'measure' for o in ops):
        ops[0] = measure(rng, psets, cats, spaces)
    n = rng.randint(4, 8)
    script = [] if explore else [rng.randint(1, len(ops)) for _ in range(n)]
    more = [dict(catalogue_type=STAT[p['stat']]) for p in psets]
    return dict(cats=cats, psets=psets, ops=ops, script=script, length=2 if explore else n, more=more, dirs=dirs, logger=rng.choice(LOGGERS))


def sweep(rng, fn):
    """Calls overriding every entry of a parameter set in turn, with the plain call before and after."""
    cats = catalogues(rng)
    tags = rng.sample(['', '_a', '_z0.5', '.v1'], 2)
    sp, ct, th = 'fourier' if fourier(fn) else 'config', ctype(fn), three(fn)
    stat = {'powspec': 'powspec', 'corrfunc': '2pcf', 'bispec': 'bispec', '3pcf': '3pcf'}[fn.split('_')[1]]
    if 'window' in fn:
        stat = '2pcf-win' if stat == '2pcf' else '3pcf-win-wa'
    psets = []
    ells = [e for e in ELL3 if e[2] % 2 == 0] if ct == 'sim' else ELL3
    for k in range(2):
        while True:
            p, q = params(rng, cats, [tags[k]], ['out'])
            if q == sp and p['box'][0] and p['grid'][0] and p['norm'] != 'mesh-mixed':
                break
        p.update(stat=stat, ell=rng.choice(ells), inter=k == 0, align='centre' if k == 0 else 'pad', expand=rng.choice([[13, 10], [7, 5]]), dir=['out', ''][k])
        p.update(form=rng.choice(['row', 'off-diag'] if k == 0 else ['diag', 'full']))
        p['idx'] = rng.choice([0, 1, -1] if p['form'] == 'off-diag' else [0, 1])
        if k == 1:
            p['box'] = [0, 0, 0]
        psets.append(p)
    ops = []
    for k, p in enumerate(psets):
        def op(samp=None, **kw):
            c = blank('measure')
            c.update(fn=fn, set=k + 1, cat=0 if ct == 'random' else 1, ran=0 if ct == 'sim' else 3, los=0, degstr=rng.random() < .5, save=rng.choice(['', '.txt', '.npz']), logger=rng.choice(LOGGERS))
            if samp:
                c['samp'] = dict(NOSAMP, given=True, **samp)
            c.update(kw)
            ops.append(c)
        other = lambda v, xs: rng.choice([x for x in xs if x != v])
        op()
        op(samp=dict(box=[rng.randint(58, 85) for _ in range(3)]))
        op(samp=dict(grid=[x % 4 + 5 for x in p['grid']]))
        op(samp=dict(expand=other(p['expand'], [[1, 1], [11, 10], [13, 10], [7, 5]])))
        op(samp=dict(align=other(p['align'], ['centre', 'pad']), **({'boxpad': [1, 9]} if p['align'] == 'centre' else {})))
        op(samp=dict(align='pad', boxpad=[1, 25]))
        op(samp=dict(align='pad', gridpad=[3, 2]))
        op(samp=dict(assign=other(p['assign'], ['ngp', 'cic', 'tsc', 'pcs'])))
        op(samp=dict(inter='false' if p['inter'] else 'true'))
        op(bin=bins(rng, sp))
        op(deg=(lambda e: e if th else [e[2]])(rng.choice([e for e in ells if e[2] != p['ell'][2] or th and e != p['ell']])))
        if th:
            for f in ('diag', 'full', 'row', 'off-diag'):
                op(form=f, idx=rng.choice([U, 1 - abs(p['idx'])]))
            op(idx=1 - abs(p['idx']))
            if 'window' in fn:
                op(wa=[1, 0])
                op(wa=[0, 1])
        if ct != 'sim':
            op(los=1)
            op(ran=4)
        op()
    more = [dict(catalogue_type=ct)] * 2
    return dict(cats=cats, psets=psets, ops=ops, script=list(range(1, len(ops) + 1)), length=len(ops), more=more, dirs=['out'], logger=rng.choice(LOGGERS))


def cutsafe(s):
    """All box sizes that may come up with a cutoff stay away from whole numbers of cells, and none makes a mesh that is too large."""
    for c in s['ops']:
        if c['op'] != 'measure':
            continue
        p = s['psets'][c['set'] - 1] if c['set'] else None
        m = c['samp'] or NOSAMP
        settled = p and p['grid'][0] == 0 and p['box'][0] and p['stat']
        if m['grid'] or (p and p['grid'][0]) or settled:
            continue
        cut = m['cut'] if m['cut'][1] else p['cut'] if p else [0, 0]
        if not cut[1]:
            continue
        ex = m['expand'] if m['expand'][1] else p['expand'] if p else [1, 1]
        for ref in (1, 2, 3, 4) if ctype(c['fn']) == 'sim' else (3, 4):
            box = m['box'] or (p and p['box'][0] and p['box']) or [x * ex[0] / ex[1] for x in s['cats'][ref - 1]['span']]
            for L in box:
                x = L * cut[0] / cut[1] / math.pi if fourier(c['fn']) else L * cut[1] / cut[0]
                if not clear(x) or x > (12 if fourier(c['fn']) else 6):
                    return False
    return True


def strip(s):
    """What the specification reads."""
    return dict(cats=[dict(span=c['span']) for c in s['cats']], psets=s['psets'], ops=s['ops'], script=s['script'], length=s['length'])


FLOOR = {'powspec': (1e-10, 1e-8), 'bispec': (1e-9, 1e-3), '2pcf': (1e-18, 1e-12), '3pcf': (1e-24, 1e-12)}


def floor(req):
    """Size below which values are rounding errors of vanishing ones, without or with normalisation."""
    return FLOOR[req['stat'].split('-')[0]][req['norm'] != 'none'] if 'stat' in req else 0.


def same(a, b, tol=1e-9, low=0.):
    """Two sets of arrays agree."""
    if set(a) != set(b):
        return f'entries {sorted(a)} instead of {sorted(b)}'
    # vanishing parts are only as exact as the parts they come with
    whole = max([math.hypot(*z) for y in b.values() if not isinstance(y, str) and y['im'] for z in zip(y['re'], y['im']) if math.hypot(*z) < math.inf] or [0])
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return f'{k}: {x!r} instead of {y!r}'
            continue
        if x['dim'] != y['dim'] or len(x['im']) != len(y['im']):
            return f'{k}: shape {x["dim"]} instead of {y["dim"]}'
        u = [complex(*z) for z in zip(x['re'], x['im'] or [0] * len(x['re']))]
        v = [complex(*z) for z in zip(y['re'], y['im'] or [0] * len(y['re']))]
        scale = whole if y['im'] else max([abs(z) for z in v if abs(z) < math.inf] or [0])
        for n, (p, q) in enumerate(zip(u, v)):
            if (abs(p) < math.inf) != (abs(q) < math.inf) or (abs(p) < math.inf and not abs(p - q) <= max(tol * scale, low if y['im'] else 0.)):
                return f'{k}[{n}] = {p} instead of {q}'
    return ''


COLS = {'powspec': ['kbin', 'keff', 'nmodes', 'pk_raw', 'pk_shot'], '2pcf': ['rbin', 'reff', 'npairs', 'xi'], '2pcf-win': ['rbin', 'reff', 'npairs', 'xi'],
        'bispec': ['k1_bin', 'k1_eff', 'nmodes_1', 'k2_bin', 'k2_eff', 'nmodes_2', 'bk_raw', 'bk_shot'], '3pcf': ['r1_bin', 'r1_eff', 'npairs_1', 'r2_bin', 'r2_eff', 'npairs_2', 'zeta_raw', 'zeta_shot']}
COLS['3pcf-win'] = COLS['3pcf-win-wa'] = COLS['3pcf']


def table(res, stat):
    out = []
    for k in COLS[stat]:
        v = res[k]
        out.append(v['re'])
        if v['im'] or k in ('pk_raw', 'pk_shot', 'xi', 'bk_raw', 'bk_shot', 'zeta_raw', 'zeta_shot'):
            out.append(v['im'] or [0.] * len(v['re']))
    return list(map(list, zip(*out)))


def header(lines, want, req, cats):
    """Whether the recorded parameters are those of the request; the first complaint."""
    if lines is None:
        return 'no header'
    d = {}
    for l in lines:
        if ': ' in l and not l.startswith('['):
            a, b = l.split(': ', 1)
            d[a] = b
    try:
        box = [float(x) for x in d['Box size'].strip('[]').split(',')]
        if any(abs(x - q[0] / q[1]) > 6e-4 for x, q in zip(box, req['box'])):
            return f'box size {box}'
        if d['Box alignment'] != want['align']:
            return f'alignment {d["Box alignment"]}'
        if d['Mesh number'] != str(want['grid']):
            return f'mesh number {d["Mesh number"]}'
        if d['Mesh assignment and interlacing'] != want['mesh']:
            return f'mesh {d["Mesh assignment and interlacing"]}'
        val, conv = d['Normalisation factor'].split()
        if conv != f'({want["norm"]})':
            return f'normalisation {conv}'
        alt = {b.strip('()'): float(a) for a, b in [(x + ')').replace('; n/a', '').replace('))', ')').split() for x in d['Normalisation factor alternatives'].split('),')]} if True else {}
        if abs(float(val) - alt.get(conv.strip('()'), 1.)) > 1e-8 * abs(float(val)):
            return f'normalisation factor {val} of {alt}'
        cols = [x.split('] ', 1)[1] for x in lines[-1].split(', ')]
        if cols != want['columns']:
            return f'columns {cols}'
        sizes = [l for l in lines if 'ntotal = ' in l]
        ns = [int(l.split('ntotal = ')[1].split(',')[0]) for l in sizes]
        exp = [cats[k - 1]['n'] for k in (req['cat'], req['ran']) if k]
        if ns != exp:
            return f'catalogue sizes {ns} instead of {exp}'
    except (KeyError, ValueError, IndexError) as e:
        return f'malformed header ({e!r})'
    return ''


def brief(s, picks):
    return dict(psets=s['psets'], ops=[s['ops'][k - 1] for k in picks], more=s['more'])


def run(ctx):
    ctx.build(ext=True)
    rng = ctx.rng
    scripted, explored = [], []
    while len(scripted) < ctx.pick(90, 900):
        s = scenario(rng, False)
        if cutsafe(s):
            scripted.append(s)
    for fn in FNS * ctx.pick(1, 8):
        while True:
            s = sweep(rng, fn)
            if cutsafe(s):
                break
        scripted.append(s)
    while len(explored) < ctx.pick(6, 60):
        s = scenario(rng, True)
        if cutsafe(s):
            explored.append(s)
    exp = ctx.oracle('Session', [strip(s) for s in scripted], cfgx=CFG)
    runs = list(zip(scripted, exp))
    json.dump([strip(s) for s in explored], open(ctx.path('ex.json'), 'w'))
    r = ctx.tlc('Session', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Names\n' + CFG, defs='Names == (pc = 0 /\\ i = 1) => NamesApart', env=dict(SCEN=ctx.path('ex.json')))
    hist = 0
    for o in r['json']:
        s = explored[o['i'] - 1]
        runs.append((dict(s, script=o['picks']), o))
        hist += 1
    if hist != len(explored) * 25:
        raise Exception(f'{hist} histories explored')
    ctx.extra['explored_histories'] = hist
    # every request of every history, once per scenario
    refs, where = [], []
    for s, o in runs:
        ks = []
        for e in o['log']:
            if e['kind'] in ('result', 'record'):
                key = json.dumps([e['req'], s['cats']], sort_keys=True)
                ks.append(key)
            else:
                ks.append(None)
        where.append(ks)
    uniq = {}
    for (s, o), ks in zip(runs, where):
        for e, k in zip(o['log'], ks):
            if k and k not in uniq:
                uniq[k] = len(refs)
                refs.append(dict(req=e['req'], cats=s['cats']))
    got = ctx.drive('d_session.py', [dict(s, script=s['script'] or o['picks']) for s, o in runs] + refs, procs=8, timeout=800, env=ctx.pyenv(OMP_NUM_THREADS='1'))
    got, base = got[:len(runs)], got[len(runs):]
    for q, g in zip(refs, base):
        if 'exception' in g or 'crash' in g:
            if 'triumvirate/' not in g.get('tail', 'triumvirate/'):
                raise Exception(g)
            ctx.violation(f'reference {q["req"]["fn"] if "fn" in q["req"] else "record"}', f'a valid measurement fails: {g.get("exception") or g.get("crash")}', dict(request=q['req']))
    told = []
    for (s, o), g, ks in zip(runs, got, where):
        ctx.traces += 1
        if 'steps' not in g:
            if 'triumvirate/' not in g.get('tail', 'triumvirate/'):
                raise Exception(g)
            ctx.violation('session', f'a session fails: {g.get("exception") or g.get("crash")}', brief(s, o['picks']))
            continue
        names = dict()
        for n, (e, a, k) in enumerate(zip(o['log'], g['steps'], ks)):
            c = s['ops'][o['picks'][n] - 1]
            what = c['fn'] or c['op']
            ctx.act(f'{what}:{e["kind"]}')
            if c['op'] == 'measure':
                ctx.act('saved as ' + c['save'] if e['file'] else 'not saved')
            bad = lambda msg: ctx.violation(f'{what}: {msg[:40]}', f'step {n + 1} ({what}): {msg}', dict(brief(s, o['picks']), step=n + 1, cats=s['cats']))
            if a['kind'] != e['kind']:
                bad(f'{a["kind"]} ({a.get("err", "")}) instead of {e["kind"]}')
                break
            if sorted(map(str, a['changed'])) != sorted(map(str, e['changed'])):
                # an update to the values already there changes nothing
                if not (e['kind'] == 'update' and a['changed'] == []):
                    bad(f'changes {a["changed"]} instead of {e["changed"]}')
                    break
            if a['gone']:
                bad(f'removes {a["gone"]}')
                break
            if a['fault']:
                bad(f'a logged message cannot be formatted: {a["fault"]}')
                break
            if c['op'] == 'measure':
                ctx.act('logger: ' + (c['logger'] or 'none'))
                if e['told'] == 'bracketed':
                    told.append((a['told'], what, brief(s, o['picks'])))
            if k:
                b = base[uniq[k]]
                if 'res' in b:
                    m = same(a['res'], b['res'], low=floor(e['req']))
                    if m:
                        bad(f'not the result of the request on its own: {m}')
                        break
            extra = [f for f in a['files'] if f != e['file']]
            if extra:
                bad(f'writes {extra} instead of {[e["file"]] if e["file"] else "no file"}')
                break
            if not e['file']:
                continue
            if e['file'] not in a['files'] and e['file'] not in names:
                bad(f'does not write {e["file"]}')
                break
            # (a file may be replaced with the very same contents)
            l = names[e['file']] = a['loads'].get(e['file'], names.get(e['file']))
            want = 'npz' if e['file'].endswith('.npz') else 'txt'
            if l['kind'] != want:
                bad(f'{e["file"]} is {l["kind"]}: {l.get("err", "")}')
                break
            if want == 'npz':
                m = same(l['data'], a['res'], 0.)
            else:
                t = table(a['res'], e['req']['stat'])
                m = '' if len(t) == len(l['table']) and len(t[0]) == len(l['table'][0]) else 'shape of the table'
                for x, y in zip(t, l['table']):
                    m = m or next((f'{v} instead of {u}' for u, v in zip(x, y) if not (u != u and v != v) and u != v and not abs(u - v) <= 2e-9 * abs(u) + 1e-300), '')
                if not all(l['plain']):
                    m = m or 'header lines'
            if m:
                bad(f'{e["file"]} does not hold the results: {m}')
                break
            m = header(l['header'], e['head'], e['req'], s['cats'])
            if m:
                bad(f'{e["file"]} records other parameters than those used: {m}')
                break
        ctx.sample(dict(ops=[dict(fn=s['ops'][k - 1]['fn'] or s['ops'][k - 1]['op'], set=s['ops'][k - 1]['set'], save=s['ops'][k - 1]['save']) for k in o['picks']], outcomes=[e['kind'] + (' ' + e['file'] if e['file'] else '') for e in o['log']]))
    # every logged measurement enters and leaves the C++ library in turn
    uniq = sorted({tuple(t) for t, _, _ in told})
    acc = dict(zip(uniq, ctx.oracle('Progress', [dict(events=list(t)) for t in uniq], cfgx='INVARIANT PEmit\nINVARIANT InStep\n')))
    for t, what, data in told:
        if not acc[tuple(t)]['ok']:
            ctx.violation(f'{what}: log', f'{what}: the log does not enter and leave the C++ library in turn: {t}', data)
    ctx.extra['logged_measurements'] = len(told)
    ctx.assumptions += ['multipole degrees below ten and output tags starting with a non-digit (file names of other requests may coincide)',
                        'Nyquist cutoffs away from whole numbers of cells', 'directories exist', 'results compared to 1e-9 of the largest value']
