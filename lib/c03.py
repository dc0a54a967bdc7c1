"""C03: catalogue text files (CatFile.tla) loaded by the compiled and the
Python loader."""
import os

U = 8
NAMES = ['x', 'y', 'z', 'nz', 'ws', 'wc']


def gen(rng, kind):
    opt = [c for c in ('nz', 'ws', 'wc') if rng.random() < .6]
    cols = ['x', 'y', 'z'] + opt
    for _ in range(rng.choice([0, 0, 1, 2])):
        cols.append('e%d' % len(cols))
    rng.shuffle(cols)
    fault = rng.random()
    if fault < .12:
        cols.remove(rng.choice('xyz'))
    nf = rng.choice([1, 1, 2, 3]) if kind == 'cpp' else 1
    short = .12 <= fault < .22
    files = []
    for _ in range(nf):
        lines = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            r = rng.random()
            if r < .15:
                lines.append(dict(k='blank', v=[]))
            elif r < .3:
                lines.append(dict(k='comment', v=[]))
            else:
                lines.append(dict(k='row', v=[rng.randrange(-400, 400) if c not in ('nz', 'ws', 'wc') else rng.randrange(1, 40)
                                              for c in cols]))
        files.append(lines)
    if short:
        rows = [l for f in files for l in f if l['k'] == 'row']
        if rows:
            need = max((cols.index(c) for c in cols if c in NAMES), default=0)
            rows[rng.randrange(len(rows))]['v'] = rows[0]['v'][:rng.randrange(1, need + 1)]
            if kind == 'py' and len(rows) == 1:
                short = False
    if kind == 'cpp' and fault > .97:
        files = [[dict(k='comment', v=[])]]
    return dict(files=files, cols=cols, vol=rng.choice([0, 64, 1000]), one=U, kind=kind)


def render(rng, lines, path, cols, header):
    with open(path, 'w') as f:
        if header:
            f.write(' '.join(cols) + '\n')
        for i, l in enumerate(lines):
            if l['k'] == 'blank':
                f.write(rng.choice(['', '   ', '\t']) + '\n')
            elif l['k'] == 'comment':
                f.write(rng.choice(['# c', '#1 2 3 4 5 6', '#', '  # 1 2 3 4 5 6 7', '## x y z']) + '\n')
            else:
                sep = rng.choice([' ', '  ', '\t']) if not header else ' '
                pre = rng.choice(['', ' ', '\t ']) if not header else ''
                t = sep.join(rng.choice(['%.3f', '%.6e', '%g']) % (x / U) for x in l['v'])
                f.write(pre + t + ('\n' if i < len(lines) - 1 or rng.random() < .8 else ''))


def compare(o, r, scen, py):
    if o['status'] == 'rejected':
        return None if 'err' in r else f'accepted: malformed input was loaded as {str(r)[:200]}'
    if 'err' in r:
        return 'raised: ' + r['err']
    c, ps = r['cat'], o['parts']
    n = len(ps)
    if c['ntotal'] != n or len(c['p']) != n:
        return f'count: {c["ntotal"]} particles, expected {n}'
    nzdef = (n / scen['vol'] if scen['vol'] else 0.) if not py else 0.
    wt = wst = 0.
    for i, p in enumerate(ps):
        ws, wc = p['ws'] / U, p['wc'] / U
        want = [x / U for x in p['pos']] + [nzdef if p['nz'] == -1000000 else p['nz'] / U, ws, wc]
        got = c['p'][i][:6]
        if any(abs(a - b) > 1e-6 * max(1, abs(b)) for a, b in zip(got, want)):
            return f'row: row {i} loaded as {got}, expected {want}'
        if not py and abs(c['p'][i][6] - ws * wc) > 1e-9:
            return f'w: row {i} overall weight {c["p"][i][6]}, expected {ws * wc}'
        wt += ws * wc
        wst += ws
    if abs(c['wtotal'] - wt) > 1e-6 or abs(c['wstotal'] - wst) > 1e-6:
        return f'totals: {c["wtotal"], c["wstotal"]} expected {wt, wst}'
    for a in range(3):
        xs = [p['pos'][a] / U for p in ps]
        if any(abs(g - w) > 1e-6 * max(1, abs(w)) for g, w in
               zip((c['lo'][a], c['hi'][a], c['span'][a]), (min(xs), max(xs), max(xs) - min(xs)))):
            return f'extents: axis {a}: {c["lo"][a], c["hi"][a], c["span"][a]}'


def run(ctx):
    ctx.build(ext=True, cpp=True)
    exe = ctx.compile_harness('h_particles.cpp')
    rng = ctx.rng
    n = ctx.pick(600, 6000)
    scens = [gen(rng, 'cpp' if i % 2 else 'py') for i in range(n)]
    # every column order of the mandatory columns with one optional column
    import itertools
    for perm in itertools.permutations(['x', 'y', 'z', 'ws']):
        for kind in ('cpp', 'py'):
            scens.append(dict(files=[[dict(k='row', v=[10, 20, 30, 40]), dict(k='row', v=[11, 21, 31, 41])]],
                              cols=list(perm), vol=64, one=U, kind=kind))
    outs = ctx.oracle('CatFile', scens, cfgx='INVARIANT OnePerRow\nINVARIANT Emit\n')
    d = ctx.path('files')
    os.makedirs(d)
    jc, jp, ic, ip = [], [], [], []
    for i, s in enumerate(scens):
        if s['kind'] == 'cpp':
            paths = []
            for k, f in enumerate(s['files']):
                p = os.path.join(d, f'{i}-{k}.dat')
                render(rng, f, p, s['cols'], False)
                paths.append(p)
            sc = dict(path='::'.join(paths), columns=','.join(s['cols']), volume=s['vol'])
            if i % 3 == 0:
                sc['again'] = 1
            jc.append(sc)
            ic.append(i)
            # the same single file through the Python loader must agree
            if len(paths) == 1 and outs[i]['status'] == 'done':
                jp.append(dict(path=paths[0], kw=dict(names=s['cols'])))
                ip.append(i)
        else:
            p = os.path.join(d, f'{i}.dat')
            mode = rng.choice(['names', 'names', 'header', 'mapping', 'text'])
            ragged = outs[i]['status'] == 'rejected'
            render(rng, s['files'][0], p, s['cols'], mode == 'header')
            if mode == 'header':
                kw = dict(format='ascii.basic')
            elif mode == 'mapping':
                al = {c: 'COL_' + c for c in s['cols'] if c in NAMES}
                kw = dict(names=[al.get(c, c) for c in s['cols']], name_mapping=al)
            elif mode == 'text':
                kw = dict(format='ascii.no_header', names=s['cols'], reader='Astropy')
            else:
                kw = dict(names=s['cols'])
            jp.append(dict(path=p, kw=kw))
            ip.append(i)
    # a missing file is rejected
    jc.append(dict(path=os.path.join(d, 'absent.dat'), columns='x,y,z', volume=0))
    rc = ctx.drive(exe, jc, procs=4)
    rp = ctx.drive('d_catfile.py', jp, procs=4)
    last = rc.pop()
    if 'crash' in last or 'err' not in last:
        ctx.violation('cpp:missing-file', str(last))
    for py, idx, js, rs in ((False, ic, jc, rc), (True, ip, jp, rp)):
        for i, j, r in zip(idx, js, rs):
            s, o = scens[i], outs[i]
            ctx.traces += 1
            ctx.act(('py:' if py else 'cpp:') + o['status'])
            if 'crash' in r:
                ctx.violation(('py' if py else 'cpp') + ':crash', f'loader crashed on {s}', s)
                continue
            bad = compare(o, r, s, py)
            if not bad and not py and 'again' in r and o['status'] == 'done' and r['again'] != 1:
                bad = 'again: a second load into the same catalogue was accepted'
            if bad:
                txt = [open(p).read() for p in j['path'].split('::')]
                ctx.violation(f'{"py" if py else "cpp"}:{bad.split(":")[0]}', bad + f' [columns {s["cols"]}]', dict(scen=s, files=txt))
    ctx.sample(dict(scenario=scens[0], outcome=outs[0]))
    ctx.sample(dict(scenario=scens[-1], outcome=outs[-1]))
