"""C25: the companion tools against Tools.tla and Formulae.tla."""
import ast
import json
import re

INV = 'INVARIANT Emit\nINVARIANT Involution\nINVARIANT Realisations\nINVARIANT Local\nPROPERTY OneFile\n'


# -- exchanging coordinates ------------------------------------------------------
def xname(n):
    sep = ',' if n['comma'] else ''
    return ('' if n['dir'] == '.' else n['dir'] + '/') + n['stat'] + sep.join(map(str, n['ell'])) + n['rest'] + n['ext']


def xtext(n, c):
    mp = c['label']['stat'] + (',' if n['comma'] else '').join(map(str, c['label']['ell']))
    sp = 'k' if c['label']['stat'].startswith('bk') else 'r'
    cols = [f'{sp}1_cen', f'{sp}1_eff', 'n_1', f'{sp}2_cen', f'{sp}2_eff', 'n_2'] + [f'{p}{{{mp}{q}}}' for q in (('_raw', '_shot') if len(c['rows'][0]) == 10 else ('',)) for p in ('Re', 'Im')]
    head = [f'# {h}' for h in c['head']] + ['# ' + ', '.join(f'[{k}] {x}' for k, x in enumerate(cols))]
    rows = ['\t'.join(f'{x}' if k in (2, 5) else f'{x*1e-3:.9e}' if k < 6 else f'{x*1e-2: .9e}' for k, x in enumerate(r)) for r in c['rows']]
    return '\n'.join(head + rows) + '\n'


def xcontent(text):
    """Lines of the header, numbers of the table."""
    head = [x.rstrip() for x in text.splitlines() if x.startswith('#')]
    return head, [[float(y) for y in x.split()] for x in text.splitlines() if x.strip() and not x.startswith('#')]


def exchange(rng):
    files = []
    dirs = ['.', 'out', 'a.b']
    for _ in range(rng.randint(1, 3)):
        comma = rng.random() < .3
        ell = [rng.choice([0, 1, 2, 4] + ([10] if comma else [])) for _ in range(3)]
        n = dict(dir=rng.choice(dirs), stat=rng.choice(['bk', 'zeta', 'zetaw']), ell=ell, comma=comma, rest=rng.choice(['', '_full', '_row1', '_diag_tag', '_full_bk202']), ext=rng.choice(['', '', '.txt', '.txt', '.dat', '.csv', '.tsv', '.5', '.75z_b']))
        if n['rest'] == '' and n['ext'] in ('.5', '.75z_b'):
            n['rest'] = '_z0'
        if any(f['name'] == n for f in files):
            continue
        m = rng.randint(1, 4)
        centres = rng.sample(range(1, 400), m)
        shape = rng.choice(['full', 'full', 'diag', 'row', 'upper'])
        pairs = [(a, b) for a in range(m) for b in range(m) if shape == 'full' or (shape == 'diag' and a == b) or (shape == 'row' and a == 0) or (shape == 'upper' and a <= b)]
        if rng.random() < .6:
            centres.sort()
        else:
            rng.shuffle(pairs)
        eff, cnt = [c + rng.randint(-9, 9) for c in centres], [rng.randint(0, 10**6) for _ in centres]
        w = rng.choice([8, 10])
        rows = [[centres[a], eff[a], cnt[a], centres[b], eff[b], cnt[b]] + [rng.randint(-10**6, 10**6) for _ in range(w - 6)] for a, b in pairs]
        head = rng.sample(['Catalogue source: extfile:bk202_x.txt', 'Box size: [1000.000, 1000.000, 1000.000]', 'Box alignment: centre', 'Normalisation factor: 3.7e+16 (particle)', 'zeta110 and bk110'], rng.randint(0, 4))
        files.append(dict(name=n, content=dict(head=head, label=dict(stat=n['stat'], ell=ell), rows=rows)))
    ops, known = [], [f['name'] for f in files]
    for _ in range(rng.randint(1, 4)):
        n = rng.choice(known)
        if rng.random() < .08:
            n = dict(n, rest='_none')
        o = dict(file=n, outdir=rng.choice(['', '', 'out', '.', 'a.b']), tag=rng.choice(['', '_x', '_y2', '_bk1']))
        ops.append(o)
        if n in known and n['ell'][0] != n['ell'][1]:
            p = n['ext'] in ('.dat', '.txt', '.csv', '.tsv')
            new = dict(n, dir=o['outdir'] or n['dir'], ell=[n['ell'][1], n['ell'][0], n['ell'][2]], rest=n['rest'] + (o['tag'] if p else ''), ext=n['ext'] + ('' if p else o['tag']))
            if new not in known:
                known.append(new)
    # names are told apart by where they end
    if len({xname(n) for n in known}) < len(known):
        return exchange(rng)
    sc = dict(tool='exchange', files=files, ops=ops)
    argv = [[xname(o['file'])] + (['--output-dir', o['outdir']] if o['outdir'] else []) + (['--output-tag', o['tag']] if o['tag'] else []) for o in ops]
    return sc, dict(tool='exchange', dirs=dirs, files=[[xname(f['name']), xtext(f['name'], f['content'])] for f in files], ops=argv), lambda n, c: (xname(n), xtext(n, c))


def same_table(got, want):
    (h, t), (g, u) = xcontent(got), xcontent(want)
    if h != g:
        return f'header {[x for x in zip(h, g) if x[0] != x[1]][:1] or [len(h), len(g)]}'
    if t != u:
        return f'rows {next(([a, b] for a, b in zip(t, u) if a != b), [len(t), len(u)])}'


# -- combining data vectors --------------------------------------------------------
SETS = [('_T_', ''), ('_T_', '_z1'), ('_', '.txt'), ('_BOSS', '_0.5'), ('_diag_T', '.txt')]


def combine(rng):
    here = rng.choice(['.', 'in', 'pk0_T_7_z1', 'xi2_T_9'])
    comps = rng.sample(['pk0', 'pk2', 'pk4', 'xi0', 'xi2', 'bk000', 'bk202', 'zeta000', 'zeta112'], rng.randint(1, 4))
    sets = rng.sample(range(len(SETS)), rng.choice([1, 2]))
    # one set must not be a beginning of the other
    if 0 in sets or 2 in sets:
        sets = sets[:1]
    pad = rng.random() < .3
    sns = rng.sample(range(1, 120), rng.randint(1, 5))
    files, texts, dup = [], [], rng.random() < .2
    for s in sets:
        for c in comps:
            stat = re.match(r'\D+', c).group()
            three = stat in ('bk', 'zeta')
            m = rng.randint(1, 3)
            bins = [[x, x + rng.randint(-3, 3), rng.randint(0, 9999)] for x in sorted(rng.sample(range(1, 300), m))]
            mine = list(sns)
            if dup and rng.random() < .5:
                mine = rng.choice([mine[1:], mine + [150], mine[1:] + [150]])
            rng.shuffle(mine)
            for sn in mine:
                rows = [(b if not three else [x - 1 for x in b[:2]] + [b[2] + 1]) + (b if three else []) + [rng.randint(-10**6, 10**6) for _ in range(2 if stat == 'xi' else 4)] for b in bins]
                files.append(dict(name=dict(kind='data', comp=c, stat=stat, set=s, sn=sn), content=rows))
                a, b = SETS[s]
                texts.append([f'{here}/{c}{a}{sn:04d}{b}' if pad else f'{here}/{c}{a}{sn}{b}', '# header\n' + '\n'.join(' '.join(map(str, r)) for r in rows) + '\n'])
    order = list(range(len(files)))
    rng.shuffle(order)
    files, texts = [files[k] for k in order], [texts[k] for k in order]
    if rng.random() < .5:
        texts += [[f'{here}/x{comps[0]}{SETS[sets[0]][0]}3{SETS[sets[0]][1]}', '1 2 3\n'], [f'{here}/notes.txt', 'pk0_T_3\n']]
    ops, argv, esc = [], [], rng.random() < .5
    for _ in range(rng.randint(1, 3)):
        # the vector of a single statistic is named like its measurements: it goes where they are not looked for
        cs = rng.sample(comps, rng.randint(min(2 if here == '.' else 1, len(comps)), len(comps)))
        if here == '.' and len(cs) == 1:
            here = 'in'
            texts = [['in/' + p[2:], t] for p, t in texts]
        if rng.random() < .06:
            cs.append('pk8')
        s = rng.choice(sets)
        lo, hi = rng.choice([(0, 0), (0, 0), (1, 200), (min(sns), max(sns)), (min(sns), sorted(sns)[len(sns)//2]), (sorted(sns)[len(sns)//2], 119), (200, 300)])
        out = rng.choice(['.', 'out'])
        ops.append(dict(comps=cs, set=s, lo=lo, hi=hi, outdir=out))
        argv.append(['--tag', '(.*)'.join(x.replace('.', r'\.') if esc else x for x in SETS[s])] + (['--range', str(lo), str(hi)] if lo else []) + ['-s'] + cs + ['--input-dir', rng.choice([here, here + '/']), '--output-dir', out])

    def show(n, c):
        if n['kind'] == 'data':
            return None
        pairs = lambda rows: [x for r in rows for x in r]
        b = list(zip(*c['bins']))
        return n, dict(data_bin_centres=list(b[0]), data_bin_coords=list(b[1]), data_bin_counts=list(b[2]), data_vectors=pairs(c['raw']), data_vectors_shotnoise=pairs(c['shot']),
                       shapes=dict(data_bin_centres=[len(c['bins'])], data_bin_coords=[len(c['bins'])], data_bin_counts=[len(c['bins'])], data_vectors=[len(c['raw']), len(c['bins'])], data_vectors_shotnoise=[len(c['raw']), len(c['bins'])]))
    return dict(tool='combine', files=files, ops=ops), dict(tool='combine', dirs=[here, 'out'], files=texts, ops=argv), show


def vname(n, argv):
    """The file of a combined vector: its components and what the common tag has besides the serial number."""
    tag = argv[argv.index('--tag') + 1].replace('(.*)', '').replace('__', '_')
    return ('' if n['dir'] == '.' else n['dir'] + '/') + ''.join(n['comps']) + tag + '.npz'


# -- parameter files ----------------------------------------------------------------
KEYS = ['form', 'binning', 'bin_min', 'num_bins', 'output_tag', 'ell1', 'boxsize_x', 'boxsize_y', 'box', 'verbose']
VALS = ['diag', 'lin', '0.05', '10', '', '_tag', 'a b', '1e-3', '/path/to x', 'true']
NOTES = ['', '# form = row', '#', '  # verbose = 3', 'A line of text', '# == ell1 ==', '; x']


def ini(rng):
    dirs = ['.', 'out', 'a.b']
    files = []
    for nm in rng.sample(['t.ini', 'out/base.ini', 'a.b/params_0.ini'], rng.choice([1, 1, 2])):
        lines = []
        for q in rng.sample(KEYS, rng.randint(1, len(KEYS))) + ([rng.choice(KEYS)] if rng.random() < .2 else []):
            while rng.random() < .3:
                lines.append(dict(kind='note', key='', val=rng.choice(NOTES)))
            lines.append(dict(kind='set', key=q, val=rng.choice(VALS)))
        files.append(dict(name=nm, content=[x for x in lines if x['kind'] == 'set' or x['val'].strip()]))
        files[-1]['text'] = ''.join((f'{rng.choice(["", "", "  "])}{x["key"]}{rng.choice([" = ", "=", "  =  "])}{x["val"]}{rng.choice(["", "", "  # a comment", "  # form = x"])}' if x['kind'] == 'set' else x['val']) + '\n' for x in lines)
        if rng.random() < .2:
            files[-1]['text'] = files[-1]['text'][:-1]
    ops, argv, names = [], [], [f['name'] for f in files]
    for _ in range(rng.randint(1, 4)):
        src = rng.choice(names) if rng.random() < .94 else 'missing.ini'
        new = rng.choice(['new.ini', 'out/x.ini', 'deep/er/p.ini', src, '', 'other.cfg'])
        dst = new or src.split('/')[-1][:-4] + '_new.ini'
        if src.endswith('.cfg'):
            dst = new or src.split('/')[-1][:-4] + '_new.ini'
        pars = [[rng.choice(KEYS + ['extra', 'form_']), rng.choice([v for v in VALS if v] + ['-3', ''])] for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        ops.append(dict(src=src, dst=dst, pars=pars))
        fmt = ['--fmt', 'ini'] if src.endswith('.cfg') or rng.random() < .2 else []
        argv.append([src] + fmt + (['-o', new] if new else []) + [x for p in pars for x in ['-p'] + p])
        if src in names and dst not in names:
            names.append(dst)
    return dict(tool='ini', files=[{k: f[k] for k in ('name', 'content')} for f in files], ops=ops), dict(tool='ini', dirs=dirs, files=[[f['name'], f['text']] for f in files], ops=argv), lambda n, c: (n, c)


def ini_lines(text):
    out = []
    for x in text.splitlines():
        y = x.split('#')[0]
        if '=' in y:
            out.append(dict(kind='set', key=y.split('=')[0].strip(), val=y.split('=', 1)[1].strip()))
        elif x.strip():
            out.append(dict(kind='note', key='', val=x.strip()))
    return out


def T(t, v):
    return dict(t=t, v=v)


YAML = {'12': T('int', '12'), '0.5': T('float', '0.5'), 'on': T('bool', 'true'), 'false': T('bool', 'false'), 'off': T('bool', 'false'), 'True': T('bool', 'true'), 'abc': T('str', 'abc'), '~': T('null', ''), '': T('null', ''),
        '[1, 2]': T('list', '[1, 2]'), '[0.5, 1.5]': T('list', '[0.5, 1.5]'), "['a', 'b.c']": T('list', '["a", "b.c"]'), '-3': T('int', '-3'), '/a/b_c.txt': T('str', '/a/b_c.txt'), '3pcf': T('str', '3pcf'), '1.e+3': T('float', '1000.0'),
        'a b': T('str', 'a b'), '0': T('int', '0')}


def val(text):
    y = YAML[text]
    num = y['t'] in ('int', 'float')
    try:
        ast.literal_eval(text)
        lit = True
    except (ValueError, SyntaxError):
        lit = False
    return dict(text=text, yaml=y, int=y['v'] if y['t'] == 'int' else '', float=repr(float(text)) if num else '', literal=lit)


def yml_text(tree):
    one = lambda v: {'null': '', 'bool': {'true': 'on', 'false': 'off'}.get(v['v'], v['v']), 'str': json.dumps(v['v']), 'float': v['v'] if '.' in v['v'] else v['v']}.get(v['t'], v['v'])
    out, seen = [], set()
    for p, v in tree:
        if len(p) == 1:
            out.append(f'{p[0]}: {one(v)}')
        else:
            if p[0] not in seen:
                out.append(f'{p[0]}:')
            seen.add(p[0])
            out.append(f'  {p[1]}: {one(v)}')
    return '---\n# template\n' + '\n'.join(out) + '\n'


PATHS = [['boxsize', 'x'], ['boxsize', 'y'], ['degrees', 'ell1'], ['tags', 'output'], ['form'], ['range'], ['num_bins'], ['expand'], ['interlace'], ['verbose'], ['files', 'data_catalogue']]


def yml(rng):
    dirs = ['.', 'out', 'a.b']
    files = []
    for nm in rng.sample(['t.yml', 'out/base.yaml', 'a.b/params_0.yml'], rng.choice([1, 1, 2])):
        ps = sorted(rng.sample(PATHS, rng.randint(2, len(PATHS))))
        tree = [[p, rng.choice([T('null', ''), T('null', ''), T('bool', 'true'), T('bool', 'false'), T('int', '7'), T('float', '1.5'), T('str', 'diag'), T('str', '12'), T('list', '[1, 2]'), T('list', '[null, null]')])] for p in ps]
        files.append(dict(name=nm, content=tree))
    ops, argv, names = [], [], [f['name'] for f in files]
    for _ in range(rng.randint(1, 4)):
        src = rng.choice(names) if rng.random() < .95 else 'missing.yml'
        new = rng.choice(['new.yml', 'out/x.yaml', 'deep/er/p.yml', src, '', 'other.par'])
        ext = '.yml' if src.endswith('.par') else '.' + src.split('.')[-1]
        dst = new or src.split('/')[-1].rsplit('.', 1)[0] + '_new' + ext
        pars = []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            p = rng.choice(PATHS) if rng.random() < .9 else rng.choice([['boxsize', 'w'], ['extra'], ['grid', 'x'], ['boxsize'], ['tags', 'more']])
            pars.append([p, val(rng.choice(list(YAML)) if p != ['boxsize'] else 'abc')])
        ops.append(dict(src=src, dst=dst, pars=pars))
        fmt = ['--fmt', 'yml'] if src.endswith('.par') else []
        argv.append([src] + fmt + (['-o', new] if new else []) + [x for p, v in pars for x in ['-p', '.'.join(p), v['text']]])
        if src in names and dst not in names:
            names.append(dst)
    return dict(tool='yml', files=files, ops=ops), dict(tool='yml', dirs=dirs, files=[[f['name'], yml_text(f['content'])] for f in files], ops=argv), lambda n, c: (n, sorted(c))


# -- comparing -----------------------------------------------------------------------
def replay(ctx, sc, job, show, exp, got):
    """Every call leaves the directory as the specification has it."""
    tool = sc['tool']
    if 'log' not in got:
        ctx.violation(f'{tool}:crash', f'{got}', [sc, job])
        return
    have = dict(got['log'][0]['files'])     # as first written
    for n, (w, x) in enumerate(zip(exp, got['log'][1:])):
        argv = job['ops'][n]
        ctx.act(f'{tool}:{w["out"]}')
        at = f'{tool} {argv} after {job["ops"][:n]}' if n else f'{tool} {argv}'
        failed = bool(x['err'])
        if failed != (w['out'] == 'error'):
            ctx.violation(f'{tool}:{"fails" if failed else "accepts"}', f'{at}: ' + (f'fails with {x["err"]}' if failed else 'should have been refused'), [sc, job, x])
            return
        if tool in ('ini', 'yml') and not failed and any('RuntimeWarning' in m for m in x['warn']) != (w['out'] == 'warned'):
            ctx.violation(f'{tool}:warning', f'{at}: warnings {x["warn"]}, expected {"one about added parameters" if w["out"] == "warned" else "none"}', [sc, job, x])
            return
        want = {}
        for f in w['wrote']:
            name, content = show(f['name'], f['content'])
            want[vname(name, argv) if tool == 'combine' else name] = content
        now = x['files']
        for f in sorted(set(have) | set(now) | set(want)):
            if f not in now:
                bad = 'is gone' if f in have else 'is missing'
            elif f not in want:
                bad = None if f in have and have[f] == now[f] else 'is written' if f not in have else 'is changed'
                if bad and tool == 'exchange' and f in have:
                    bad = same_table(now[f], have[f])
                elif bad and tool == 'ini' and f in have:
                    bad = bad if ini_lines(now[f]) != ini_lines(have[f]) else None
            elif tool == 'exchange':
                bad = same_table(now[f], want[f])
            elif tool == 'ini':
                a, b = ini_lines(now[f]), [dict(x, val=x['val'].strip()) for x in want[f]]
                bad = None if a == b else f'reads {[x for x in a if x not in b][:3]} and not {[x for x in b if x not in a][:3]}'
                bad = bad and ('has its lines in another order' if sorted(map(str, a)) == sorted(map(str, b)) else bad)
            elif tool == 'yml':
                a, b = now[f], want[f]
                bad = None if a == b else f'holds {[x for x in a if x not in b][:3]} and not {[x for x in b if x not in a][:3]}'
            else:
                a, b = now[f], want[f]
                bad = next((f'{q}: {str(a.get(q))[:160]} instead of {str(b[q])[:160]}' for q in b if a.get(q) != b[q]), None)
            if bad:
                ctx.violation(f'{tool}:{bad.split(":")[0].split(" ")[0]}', f'{at}: file {f} {bad}', [sc, job, x, want])
                return
        have = now


def listing(ctx, count):
    rng = ctx.rng
    poles = [[a, b, c] for a in range(3) for b in range(3) for c in range(3) if (a + b + c) % 2 == 0 and 2*max(a, b, c) <= a + b + c]
    sc, jobs = [], []
    for _ in range(count):
        l, q, z, how = rng.choice(poles), rng.sample(poles, rng.randint(1, 3)), rng.sample(poles, rng.randint(1, 4)), rng.choice('cuw')
        t = lambda m: ''.join(map(str, m))
        sc.append(dict(kind='list', l=l, q=q, z=z, sort=how))
        argv = [t(l)] + rng.choice([['-w'] + [t(x) for x in q] + ['-u'] + [t(x) for x in z], ['-u', t(z[0])] + ['-w'] + [t(x) for x in q] + (['-u'] + [t(x) for x in z[1:]] if z[1:] else [])])
        jobs.append(dict(tool='list', argv=argv + (['-r', how] if how != 'c' or rng.random() < .5 else [])))
    exp = ctx.oracle('Formulae', sc, cfgx='INVARIANT Emit\n')
    res = ctx.drive('d_tools.py', jobs, procs=8)
    for s, j, o, g in zip(sc, jobs, exp, res):
        ctx.traces += 1
        o = o['r']['list']
        ctx.act(f'list:{min(len(o), 3)} terms')
        if g.get('err', 'crash'):
            ctx.violation('list:fails', f'gen_wc_coeffs {j["argv"]}: {g}', [s, j])
            continue
        frac = lambda c: str(c[0]) if c[1] == 1 else f'{c[0]}/{c[1]}'
        t = lambda m: ''.join(map(str, m))
        want = [[t(s['l']), frac(x['c']), t(x['q']), t(x['z'])] for x in o]
        got = [list(m) for m in re.findall(r'^(\d+): *(\S+) Q_\{(\d+)\} Z_\{(\d+)\}', g['out'], re.M)]
        if got != want:
            ctx.violation('list:terms', f'gen_wc_coeffs {j["argv"]} lists {got} instead of {want}', [s, j, g])


def measured(ctx, count):
    rng = ctx.rng
    jobs = []
    for k in range(count):
        stat = rng.choice(['bk', 'zeta'])
        what = 'exchange' if k % 2 else 'combine'
        ell = rng.choice([[0, 2, 2], [2, 0, 2], [1, 3, 2]] if what == 'exchange' else [[0, 0, 0], [1, 1, 0], [2, 0, 2]])
        jobs.append(dict(tool='measured', what=what, seed=rng.randrange(10**6), stat=stat, ell=ell, deg=rng.choice([0, 2]), assign=rng.choice(['ngp', 'cic', 'tsc', 'pcs']), range=[.05, .32] if stat == 'bk' else [5., 28.]))
    for j, g in zip(jobs, ctx.drive('d_tools.py', jobs, procs=8)):
        ctx.traces += 1
        ctx.act(f'measured:{j["what"]}:{j["stat"]}')
        if 'got' not in g:
            ctx.violation(f'measured:{j["what"]}:fails', f'{g}', j)
            continue
        a, b = g['got'], g['want']
        flat = lambda x: [z for y in x for z in flat(y)] if isinstance(x, list) else [x]
        a, b = flat(a), flat(b)
        top = max(map(abs, b), default=0) if j['what'] == 'combine' else None
        if j['what'] == 'exchange':
            rows = [(p, q) for p, q in zip(g['got'], g['want'])]
            scale = max((abs(x) for _, q in rows for x in q[6:]), default=1) or 1
            bad = next(([p, q] for p, q in rows if any(abs(x - y) > (1e-8*abs(y) if c < 6 else 1e-7*scale) for c, (x, y) in enumerate(zip(p, q)))), None)
            if len(g['got']) != len(g['want']) or bad or g['head'][0] != g['head'][1]:
                ctx.violation('measured:exchange', f'exchanging {j["stat"]}{j["ell"]} gives another table than measuring its mirror image: {bad or g["head"]}', [j, g])
        elif len(a) != len(b) or any(abs(x - y) > 1e-8*top for x, y in zip(a, b)):
            ctx.violation('measured:combine', f'combined vector {a[:8]} instead of {b[:8]}', [j, g])


def run(ctx):
    ctx.build(ext=True)
    rng = ctx.rng
    cases = [f(rng) for f, n in ((exchange, ctx.pick(250, 3000)), (combine, ctx.pick(200, 2000)), (ini, ctx.pick(400, 5000)), (yml, ctx.pick(400, 5000))) for _ in range(n)]
    exp = ctx.oracle('Tools', [c[0] for c in cases], cfgx=INV)
    res = ctx.drive('d_tools.py', [c[1] for c in cases], procs=8)
    for (sc, job, show), o, g in zip(cases, exp, res):
        ctx.traces += 1
        replay(ctx, sc, job, show, o['log'], g)
    ctx.log('directories compared')
    listing(ctx, ctx.pick(40, 400))
    measured(ctx, ctx.pick(8, 60))
    for c in cases[::len(cases)//4]:
        ctx.sample(dict(tool=c[0]['tool'], calls=c[1]['ops']))
