"""C05: parameter files, copies, overrides and written files against ParamFile.tla; Python save and load."""
import os
from parset import *
import parfile

INV = 'INVARIANT FEmit\nINVARIANT Coherent\nINVARIANT Sensible\nINVARIANT RoundTrip\nINVARIANT Stable\nINVARIANT OrderFree\nINVARIANT OverrideLocal\n'
NONE = dict(mode='off', abs=False, name='')
BLANK = dict(cat='', stat='', form='', norm='', binning='', assign='', inter='', scheme='', align='', padscale='', expand=[0, 0], cut=[0, 0], pad=[0, 0], idx=U, nb=0, wis='', prog='',
             verb=20, tag='', bx=0, by=0, bz=0, gx=0, gy=0, gz=0, l1=U, l2=U, l3=U, wi=U, wj=U, bmin=U, bmax=U, cdir='', mdir='', dfile=[], rfile=[], save=NONE)
NOISE = ['', '   ', '# form = row', '#form = row', ' # ell1 = 5', '\t#num_bins = 3', 'assignment_order = 4', 'xform = row', 'form_ = row', 'nmesh = 5', 'npoint = 3pt', 'space = none', 'shape = triu',
         'volume = 1', 'ell = 3', 'ell12 = 3', 'idx_bins = 4', 'bin = 3', 'my_bin_min = 0.7', 'boxsize = 1', 'boxsize_xy = 9', 'pad = 3', 'alignment.x = pad', 'fftw = patient', 'tag = zz', 'output = zz',
         'catalogue = sim', 'catalogue_types = none', 'use_fftw = /x', 'form row', 'form : row', 'norm_convention == mesh', 'A line of text = about the form = row', 'expand is = 3', 'fftw_wisdom_file_f = /x/y', 'verbosity = 3',
         'progbars = true', 'data_catalogue = a.txt', '= row', 'ell1 ell2 = 3']
DIRS = ['', 'cats', 'cats/', '/abs/out', '/abs/out/', 'binning/ell1', './', 'form', 'a.b/c_d', '../up']
NAMES = ['d.txt', 'sub/d.dat', 'form.dat', 'alignment.dat', 'num_bins=3.txt', 'ell1', 'r#1.txt', 'cats/d.txt']


def odd(rng, s):
    """Values that look like other things, and more digits."""
    if rng.random() < .5:
        s['tag'] = rng.choice(['', '_form', '_ell1', '_bin_min=3', '.v1.2', '_#2', 'x' * 40])
    if rng.random() < .5:
        s['cdir'], s['mdir'] = rng.choice(DIRS), rng.choice(DIRS)
    if rng.random() < .5:
        for f in ('dfile', 'rfile'):
            s[f] = [dict(abs=False, name=rng.choice(NAMES)) if rng.random() < .75 else dict(abs=True, name=rng.choice(['/abs/x.dat', '/abs/out/y', '/form'])) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if rng.random() < .3:
        s['wis'] = rng.choice(['', 'wis', 'wis/', '/tmp/w/is', 'true_dir/', 'Wis', 'FFT/False'])
    if rng.random() < .4:
        s['expand'] = rng.choice([[1234567, 1234566], [10001, 10000], [4, 3], [100001, 100000]])
    if rng.random() < .4:
        s['pad'] = rng.choice([[1, 3], [12345, 1000000], [99999, 100000], [1, 30000]])
    if rng.random() < .4 and s['bmin'] != U and s['bmax'] != U:
        s['bmin'], s['bmax'] = rng.choice([[1, 2], [5, 123457], [33333, 66667], [0, 1]])
    s['verb'] = rng.choice([60, 60, 50, 45])


def layout(rng, s, how):
    """Lines of a file for the settings s, as model lines and text."""
    fs = [f for f in s if parfile.value(s, f) is not None and (f != 'save' or s['save']['mode'] != 'off' or rng.random() < .5)]
    unset = [f for f in s if f not in fs and f != 'save']
    rng.shuffle(fs)
    lines = [dict(kind='set', key=f, val=s[f]) for f in fs if not (f == 'wis' and not s['wis'] and rng.random() < .5)]
    for _ in range(rng.choice([0, 0, 1, 2])):       # an earlier line for the same key
        x = rng.choice(lines)
        alt = {}
        alt.update(s)
        alt.update(base(rng, False))
        odd(rng, alt)
        if parfile.value(alt, x['key']) is not None and x['key'] != 'save':
            lines.insert(rng.randint(0, lines.index(x)), dict(kind='set', key=x['key'], val=alt[x['key']]))
    text = []
    out = []
    for x in lines:
        while rng.random() < how:
            n = rng.choice(NOISE + [f'{parfile.KEY.get(f, f)} =' for f in unset + fs[:4]] + [f'{parfile.KEY.get(f, f)}' for f in fs[:3]])
            out.append(dict(kind='noise', key='', val=0))
            text.append(n)
        k, v = parfile.KEY.get(x['key'], x['key']), parfile.value({x['key']: x['val']}, x['key'])
        sp = lambda: rng.choice([' ', ' ', '  ', '\t', ' \t '])
        end = rng.choice(['', '', ' ', '\t', '  # form = row', ' # a comment', ' = 3', '\r']) if rng.random() < how else ''
        text.append(rng.choice(['', '', ' ', '\t'] if how else ['']) + k + sp() + '=' + sp() + v + end)
        out.append(x)
    return out, '\n'.join(text) + rng.choice(['\n', '\n', ''])


def overrides(rng):
    d, env = {}, {}
    if rng.random() < .4:
        d['tag'] = env['TRV_OVERRIDE_OUTPUT_TAG'] = rng.choice(['_o', '', '_form', '.x.y'])
    if rng.random() < .4:
        d['scheme'] = env['TRV_OVERRIDE_FFTW_SCHEME'] = rng.choice(['estimate', 'measure', 'patient', 'patient', 'never'])
    if rng.random() < .4:
        w = rng.choice(['', 'wis2', '/w/x/'])
        d['wis'], env['TRV_OVERRIDE_USE_FFTW_WISDOM'] = w, w or 'false'
    if rng.random() < .4:
        d['verb'] = rng.choice([45, 50, 60])
        env['TRV_OVERRIDE_VERBOSE'] = str(d['verb'])
    if rng.random() < .4:
        d['prog'] = env['TRV_OVERRIDE_PROGBAR'] = rng.choice(['true', 'false', '5', '2.5'])
    return d, env


INDIR = dict(data_catalogue_file='catalogue_dir', rand_catalogue_file='catalogue_dir', save_binned_vectors='measurement_dir')


def listed(text, p):
    """Differences between a used-parameter file and the parameter set it describes."""
    got = {}
    for ln in text.split('\n'):
        if ln and not ln.startswith('#'):
            k, _, v = ln.partition('=')
            if k.strip() in got:
                return [f'{k.strip()} is listed twice']
            got[k.strip()] = v.strip()
    want = {k: v for k, v in p.items() if k not in ('boxsize', 'ngrid')}
    for n, a in enumerate('xyz'):
        want['boxsize_' + a], want['ngrid_' + a] = p['boxsize'][n], p['ngrid'][n]
    bad = [f'{k} is not listed' for k in want if k not in got] + [f'{k} is listed' for k in got if k not in want]
    for k, v in want.items():
        if k not in got:
            continue
        w = got[k]
        if isinstance(v, str):
            d = p[INDIR[k]] if k in INDIR else ''
            a, b = w.split('::'), v.strip().split('::')
            same = len(a) == len(b) and all(x == y or d and os.path.join(d, x) == y for x, y in zip(a, b))
        else:
            try:
                same = float(w) == v
            except ValueError:
                same = False
        if not same:
            bad.append(f'{k} is listed as {w!r} rather than {v!r}')
    return bad


def compiled(ctx, count):
    rng = ctx.rng
    scen, jobs = [], []
    while len(scen) < count:
        s = base(rng, False)
        s.update(alter(rng, s, rng.choice([0, 0, 1, 2]), False))
        odd(rng, s)
        s['save'] = rng.choice([NONE, dict(mode='on', abs=False, name=''), dict(mode='path', abs=False, name='bv.txt'), dict(mode='path', abs=False, name='b'), dict(mode='path', abs=True, name='/abs/out/bv.txt')])
        if not fits(s):
            continue
        lines, text = layout(rng, s, rng.choice([0, .15, .4]))
        ops, jo = [], []
        for _ in range(rng.choice([2, 4, 6])):
            op = rng.choice(['copy', 'again', 'write', 'back', 'over', 'over'])
            if op == 'over':
                d, env = overrides(rng)
                if not d:
                    continue
                ops.append(dict(op=op, set=d))
                jo.append(dict(op=op, env=env))
            else:
                ops.append(dict(op=op, set=dict(verb=0)))
                jo.append(dict(op=op))
        scen.append(dict(route='file', blank=BLANK, lines=lines, ops=ops))
        jobs.append(dict(op='history', text=text, ops=jo))
    exp = ctx.oracle('ParamFile', scen, cfgx=INV, spec='FSpec')
    h = ctx.compile_harness('h_params.cpp')
    res = ctx.drive(h, jobs, procs=6)
    for s, o, d, g in zip(scen, exp, jobs, res):
        ctx.traces += 1
        if 'log' not in g:
            ctx.violation('file:crash', f'history of a parameter file crashed: {g}; file {d["text"]!r}', [s, d])
            continue
        for n, (w, x) in enumerate(zip(o['log'], g['log'])):
            what = 'read' if n == 0 else d['ops'][n - 1]['op']
            more = '' if n == 0 else f' ({d["ops"][n - 1]})'
            ctx.act(f'file:{what}:{"ok" if w["ok"] else w["why"]}')
            if bool(x['ok']) != w['ok']:
                ctx.violation(f'file:{what}:{"rejects-valid" if w["ok"] else "accepts:" + w["why"]}',
                              f'{what}{more} of {d["text"]!r}: {x}, expected {"a valid set" if w["ok"] else "rejection by rule " + w["why"]}', [s, d, g])
                break
            if not w['ok']:
                break
            bad = cpp_diff(w['view'], x['p'])
            if n and what in ('copy', 'again', 'write') and g['log'][n - 1]['p'] != x['p']:
                a, b = g['log'][n - 1]['p'], x['p']
                bad += [f'{f} = {b[f]!r} instead of {a[f]!r} as before' for f in a if a[f] != b[f]]
            if what == 'back':
                a, b = g['log'][n - 1]['p'], x['p']
                bad += [f'{f} = {b[f]!r} instead of {a[f]!r} as written' for f in a if a[f] != b[f]]
            if what in ('write', 'back'):
                bad += listed(x['text'], x.get('was', x['p']))
            if bad:
                ctx.violation(f'file:{what}:{bad[0].split(" =")[0]}', f'after {what}{more} of {d["text"]!r}: ' + '; '.join(bad), [s, d, g])
                break
    ctx.sample(dict(file=jobs[0]['text'], ops=jobs[0]['ops']))


def python_side(ctx, count):
    """Python sets saved and loaded again look the same, in items and on the C++ side."""
    rng = ctx.rng
    scen = []
    while len(scen) < count:
        s = base(rng, True)
        s.update(alter(rng, s, rng.choice([0, 1, 2]), True))
        odd(rng, s)
        for f in ('expand', 'pad'):
            pass
        if fits(s):
            scen.append(dict(route='py', start=s, ops=[]))
    exp = ctx.oracle('Params', scen, cfgx='INVARIANT Emit\nINVARIANT Coherent\nINVARIANT Sensible\n')
    jobs = [dict(start=pydict(rng, s['start']), ops=[], save=True) for s in scen]
    res = ctx.drive('d_params.py', jobs, procs=6, env=ctx.pyenv(VERIF_PEEK=ctx.compile_peek()))
    for s, o, d, g in zip(scen, exp, jobs, res):
        ctx.traces += 1
        if 'log' not in g:
            ctx.violation('python:crash', f'saving a parameter set crashed: {g}', [s, d])
            continue
        w = o['log'][0]
        ctx.act(f'py:{"ok" if w["ok"] else w["why"]}')
        if g['log'][0]['ok'] != w['ok']:
            ctx.violation(f'python:{"rejects-valid" if w["ok"] else "accepts:" + w["why"]}', f'parameters {d["start"]}: {g["log"][0]}', [s, d])
            continue
        if not w['ok']:
            continue
        a, b = g['log'][0], g['again']
        if 'err' in b:
            ctx.violation('python:load', f'a saved parameter file is not loaded: {b["err"]}; parameters {d["start"]}', [s, d, g])
            continue
        bad = cpp_diff(w['view'], b['cpp']) + item_diff(w['view'], b['items'])
        bad += [f'item {f} = {b["items"].get(f)!r} instead of {a["items"].get(f)!r} as saved' for f in sorted(set(a['items']) | set(b['items'])) if a['items'].get(f, 0) != b['items'].get(f, 0)]
        bad += [f'{f} = {b["cpp"][f]!r} instead of {a["cpp"][f]!r} as saved' for f in a['cpp'] if a['cpp'][f] != b['cpp'][f]]
        if bad:
            ctx.violation(f'python:{bad[0].split(" =")[0]}', f'after save and load of {d["start"]}: ' + '; '.join(bad), [s, d, g])
        if 'ghost' in g:
            ctx.violation('python:ghost', f'a parameter that does not exist was returned: {g["ghost"]}', [s, d])


def run(ctx):
    ctx.build(ext=True, cpp=True)
    compiled(ctx, ctx.pick(1500, 25000))
    ctx.log('parameter file histories compared')
    python_side(ctx, ctx.pick(600, 8000))
