"""C27: planning of transforms and files of wisdom against Wisdom.tla."""
import copy
import re
import c14

CFG = ''.join(f'INVARIANT {x}\n' for x in ('Emit', 'OneEach', 'InDirs', 'Known', 'AskedFor')) + 'PROPERTY Keeps\nPROPERTY Both\n'
NAME = re.compile(r'(w\w*)/fftw(_omp)?_ci([fb])_(\d+)x(\d+)x(\d+)\.wisdom')
TWO = [('compute_powspec', 'fourier', 'survey', 'powspec'), ('compute_corrfunc', 'config', 'survey', '2pcf'), ('compute_powspec_in_gpp_box', 'fourier', 'sim', 'powspec'),
       ('compute_corrfunc_in_gpp_box', 'config', 'sim', '2pcf'), ('compute_corrfunc_window', 'config', 'random', '2pcf-win')]


def job(rng, mesh, j):
    """A measurement on a mesh; two-point statistics with the catalogues of three-point ones."""
    if rng.random() < .5:
        while True:
            s, nb = c14.measurement(rng, j)
            if 'wa' not in s:
                break
            j += 1
        s.update(degrees=list(rng.choice(c14.DEG)), extra=dict(form='diag', idx_bin=0))
    else:
        fn, space, ctype, stat = rng.choice(TWO)
        s, nb = c14.measurement(rng, {'survey': 0 if space == 'fourier' else 2, 'sim': 1 if space == 'fourier' else 3, 'random': 4}[ctype])
        s.update(fn=fn, stat=stat, degrees=[0, 0, rng.choice([0, 1, 2, 4])])
    s.update(n=list(mesh), norm=rng.choice(['none', 'particle']), mode=2)
    return s


def history(rng, j):
    meshes = []
    for _ in range(rng.randint(1, 3)):
        m = [rng.choice([4, 5, 6, 7, 8, 9]) for _ in range(3)]
        meshes += [m] + ([m[::-1]] if rng.random() < .4 else [])
    dirs = rng.sample(['w1', 'w2', 'wA'], rng.randint(1, 2))
    ops, made = [], set()
    for d in dirs:
        if rng.random() < .85:
            ops.append(dict(op='mkdir', dir=d))
            made.add(d)
    for p in range(rng.randint(1, 4)):
        for _ in range(rng.choice([0, 0, 1, 2])):
            o = dict(op=rng.choice(['place', 'remove']), dir=rng.choice(dirs), way=rng.choice('fb'), mesh=rng.choice(meshes), text=rng.choice(['', 'no wisdom\n', '(fftw-3.0 fftw_wisdom #x0 #x0 #x0 #x0\n)\n']))
            if o['dir'] in made:
                ops.append(o)
        ops.append(dict(op='start'))
        prog = rng.random() < .2
        for _ in range(1 if prog else rng.randint(1, 3)):
            m, d = rng.choice(meshes), rng.choice(dirs + dirs + [''])
            o = dict(op='measure', mesh=m, dir=d, program=prog, scheme=rng.choice(['measure', 'measure', 'measure', 'patient', 'estimate'] if d else ['measure', 'patient', 'estimate', 'measure']))
            s = job(rng, m, rng.randrange(6))
            if prog:
                while s['ctype'] != 'sim' or s['space'] != 'fourier' or s['stat'] not in ('powspec', 'bispec'):
                    s = job(rng, m, 1)
                s['norm'] = 'none'
                made |= {d} - {''} if o['scheme'] != 'estimate' else set()
            o['job'] = s
            o['spelled'] = d and rng.choice(['{}', '{}/', './{}', '${{VRF_WISDOM}}' + d[1:] if d == 'w1' else '{}']).format(d)
            ops.append(o)
    return dict(ops=ops, omp=True)


def key(f):
    m = NAME.fullmatch(f)
    return (m[1], m[3], (int(m[4]), int(m[5]), int(m[6]))) if m else (f,)


def far(a, b):
    if len(a) != len(b):
        return f'{len(a)} values instead of {len(b)}'
    big = max([abs(x) for x in b if x == x] + [0])
    for x, y in zip(a, b):
        if not (x != x and y != y) and not abs(x - y) <= 1e-8*big + 1e-9*abs(y):
            return f'{x} instead of {y}'
    return ''


def run(ctx):
    ctx.build(ext=True, cpp=True, program=True)
    rng = ctx.rng
    sc = [history(rng, j) for j in range(ctx.pick(90, 900))]
    got = ctx.drive('d_plan.py', sc, procs=8, env=dict(OMP_NUM_THREADS='1'))
    ms = copy.deepcopy(sc)
    for s in ms:
        for o in s['ops']:
            for k in ('job', 'text', 'spelled'):
                o.pop(k, None)
    for s, g, o in zip(sc, got, ctx.oracle('Wisdom', ms, cfgx=CFG)):
        ctx.traces += 1
        if 'out' not in g:
            ctx.violation('crash', f'failed: {g.get("crash", g)}', [s, g])
            continue
        for op, a, b in zip([x for x in s['ops'] if x['op'] == 'measure'], g['out'], o['log']):
            who = 'program' if op['program'] else op['job']['fn']
            ctx.act(f'{who}:{op["scheme"]}:{"refused" if b["refused"] else "new" if b["new"] else "known" if op["dir"] else "none"}')
            what = f'{who} on {op["mesh"]} with scheme {op["scheme"]} and wisdom {op["spelled"]!r}'
            want = lambda v: {(x['dir'], x['way'], tuple(x['mesh'])) for x in v}
            bad = ''
            if a['refused'] != b['refused']:
                bad = ('refused', f'{what} {"refused: " + a["text"] if a["refused"] else "not refused"}')
            elif a.get('leak'):
                bad = ('leak', f'{what} left {a["leak"]} file(s) open')
            elif {key(f) for f in a['files']} != want(b['files']) or a['dirs'] != sorted(b['all']):
                bad = ('files', f'{what} left {a["files"]} in {a["dirs"]} instead of {sorted(want(b["files"]))} in {b["all"]}')
            elif a['changed'] and not a['slow']:
                bad = ('changed', f'{what} changed {a["changed"]}')
            elif not b['refused'] and far(a['res'], a['plain']['res']):
                bad = ('result', f'{what} measured {far(a["res"], a["plain"]["res"])} when estimated')
            elif not all(u['imported'] and u['planned'] for u in a['usable']):
                bad = ('useless', f'{what} wrote {[(f, u) for f, u in zip(a["new"], a["usable"])]}')
            if bad:
                ctx.violation(bad[0], bad[1], [s, g, o])
                break
    # every history of a small world: its states are finitely many
    fin = ctx.path('none.json')
    open(fin, 'w').write('[]')
    r = ctx.tlc('Wisdom', 'SPECIFICATION FreeSpec\nCHECK_DEADLOCK FALSE\nVIEW FreeView\nINVARIANT OneEach\nINVARIANT InDirs\nINVARIANT Known\n', env=dict(SCEN=fin))
    ctx.extra['states_of_a_small_world'] = r['states']
    ctx.sample(ms[0])
    ctx.assumptions += ['one thread; meshes of at most 9 cells a side, planned within a second; no two processes at once in one directory']
