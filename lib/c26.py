"""C26: messages, progress bars and text helpers against Reporting.tla."""
import json
import re
import c14

D = 6400
CFG = 'INVARIANT Emit\nINVARIANT NoMore\nINVARIANT NodeAhead\nINVARIANT Inverse\nPROPERTY Quiet\nPROPERTY Complete\n'
TERMS = ['xterm-256color', 'color', 'screen-color', 'xterm', 'dumb', '']
INTER = ['true', 'yes', '1', 'on', 'false', 'no', '0', '']
WORDS = ['measured', 'a b', '', 'grid', 'x=1', '50%', '100%d', 'a\\tb', 'c"d', '[ok]']
STAMP = r'\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \(\+\d\d+:\d\d:\d\d\)'
DECADE = ['', 'DBUG', 'STAT', 'INFO', 'WARN', 'ERRO']


def cpp_messages(rng):
    ops = []
    for _ in range(rng.randint(3, 12)):
        w = rng.random()
        if w < .3:
            how = rng.choice(['int', 'enum'])
            ops.append(dict(op='level', how=how, at=rng.choice([0, 10, 20, 30, 40, 50]) if how == 'enum' else rng.randint(-3, 70)))
        elif w < .45:
            ops.append(dict(op='env', term=rng.choice(TERMS), inter=rng.choice(INTER)))
        else:
            how = rng.choice(['name', 'int', 'enum'])
            at = rng.choice([10, 20, 30, 40, 50]) if how == 'name' else rng.choice([0, 10, 20, 30, 40, 50]) if how == 'enum' else rng.randint(0, 65)
            h, n = rng.choice(WORDS)*rng.choice([1, 1, 40]), rng.randint(-5, 999)
            ops.append(dict(op='say', how=how, at=at, head=h, num=n, text=f'{h}{n}'))
    return ops


def dyadic(rng, top=256):
    return 25*rng.randint(0, top)


def bar(rng):
    count = rng.choice([0, -2, 1, 2, 4, 8, 16, 64, 128, 256, 256]) if rng.random() < .15 else 2**rng.randint(0, 8)
    name = rng.choice(['', 'task', 'component orders (0, 0, 0)'])
    ops = [dict(op='env', term=rng.choice(TERMS), inter=rng.choice(INTER)), dict(op='new', count=max(count, 1), name=name)]
    if count < 1:
        ops.append(dict(op='new', count=count, name=name))
        count = 1
    full, prog = False, 0
    for _ in range(rng.choice([4, 12, 12, 60, 300])):
        w = rng.random()
        if full and w < .85 or w < .02:
            if rng.random() < .5:
                t = rng.randint(-1, count + 1)
                ops.append(dict(op='task', t=t))
                if 0 <= t <= count:
                    full, prog = t == count, D*t//count
            else:
                p = rng.choice([dyadic(rng), dyadic(rng), -25, D + 25])
                ops.append(dict(op='place', p=p))
                if 0 <= p <= D:
                    full, prog = p == D, p
        elif w < .05:
            ops.append(dict(op='width', w=rng.choice([1, 2, 10, 50, 63, 100, 0, -4])))
        elif w < .09:
            v = sorted(rng.sample(range(0, D + 1), rng.randint(1, 9)))
            if rng.random() < .3:
                v = sorted(dyadic(rng) for _ in range(rng.randint(1, 9)))
            if rng.random() < .3:
                v.append(D)
            ops.append(dict(op='nodes', nodes=rng.choice([v, v, v, []])))
        elif w < .14:
            v = rng.choice([0, -25, D, D + 50, dyadic(rng), 25*2**rng.randint(0, 7), 25*2**rng.randint(2, 7)])
            ops.append(dict(op='every', w=v, text=rng.choice(['%r', '%f', '%.8e', ' %r'][:3 if v else 4]) % (v*100/D)))
        elif full:
            break
        elif w < .9:
            now = prog*count//D
            t = min(count, now + rng.choice([0, 1, 1, 1, 2, count//8, count//3 + 1]))
            if rng.random() < .04:
                t = rng.randint(0, count)
            ops.append(dict(op='update', t=t))
            prog, full = D*t//count, t == count
        else:
            p = min(D, prog//25*25 + 25*rng.choice([0, 1, 2, 5, 20, 64]))
            ops.append(dict(op='reach', p=p))
            prog, full = p, p == D
    if rng.random() < .5 and not full:
        ops.append(dict(op='update', t=count))
        full = True
    if rng.random() < .2:
        ops.append(dict(op='update', t=count + 1))
    return ops


def texts(rng):
    ops = []
    for _ in range(rng.randint(2, 6)):
        o = rng.choice(['split', 'split', 'join', 'ends', 'clock', 'path'])
        letters = lambda n: [rng.choice('ab:') for _ in range(n)]
        if o == 'split':
            s, d = letters(rng.randint(0, 9)), rng.choice([list('::'), [':'], ['a'], list('ab'), []])
            ops.append(dict(op=o, s=s, d=d, str=''.join(s), **{'del': ''.join(d)}))
        elif o == 'join':
            ps, d = [letters(rng.randint(0, 3)) for _ in range(rng.randint(0, 4))], rng.choice([list('::'), [], ['a']])
            ops.append(dict(op=o, ps=ps, d=d, strs=[''.join(p) for p in ps], **{'del': ''.join(d)}))
        elif o == 'ends':
            s = list(rng.choice(['a.txt', '.txt', 'txt', 'a.txt.dat', 'a.TXT', 'a.txt.txt', '', 'xt', 'dir.txt/a']))
            e = list(rng.choice(['.txt', '.txt', '.dat', '']))
            ops.append(dict(op=o, s=s, e=e, str=''.join(s), ext=''.join(e)))
        elif o == 'clock':
            t = rng.choice([0, 59, 60, 3599, 3600, 35999, 36000, 359999, 360000, rng.randint(0, 4000), rng.randint(0, 900000)])
            ops.append(dict(op=o, t=t, frac=rng.choice([0, .25, .999])))
        else:
            parts = []
            for _ in range(rng.randint(0, 5)):
                if rng.random() < .5:
                    parts.append(dict(var='', set=False, val='', text=rng.choice(['dir', '/', '.txt', '$', 'a b', '{x}', '$HOME'])))
                else:
                    var = rng.choice(['VRF_A', 'VRF_B', 'VRF_LONG_NAME'])
                    seen = [p for p in parts if p['var'] == var]
                    parts.append(dict(seen[0]) if seen else dict(var=var, set=rng.random() < .6, val=rng.choice(['', 'x', '/long/path/to/some/place/far/away', '${VRF_A}', '$']), text=''))
            ops.append(dict(op=o, parts=parts, text=''.join('${%s}' % p['var'] if p['var'] else p['text'] for p in parts)))
    return ops


def py_session(rng):
    given = rng.random() < .7
    ops = [dict(op='level', at=rng.choice([0, 10, 15, 20, 30, 40, 50, 60]) if given else 15, given=given)]
    for _ in range(rng.randint(3, 12)):
        w = rng.random()
        if w < .15:
            given = rng.random() < .7
            ops.append(dict(op='level', at=rng.choice([0, 10, 15, 20, 25, 30, 40, 50, 60]) if given else 15, given=given))
        elif w < .3:
            ops.append(dict(op='env', term=rng.choice(TERMS), inter=rng.choice(['true', 'yes', '1', 'on', ''])))
        elif w < .75:
            cpp = rng.choice(['unset', 'off', 'start', 'end', 'in'])
            h, t = rng.choice(['measured ', '', 'a {b} ', '{} ', '50 percent ']), rng.choice(['', 'x', '3.5'])
            args = rng.random() < .5
            if not args:
                h += rng.choice(['', '100%', '%d'])
            ops.append(dict(op='pysay', at=rng.choice([10, 15, 20, 30, 40, 50]), cpp=cpp, head=h, tail=t, args=args, text=h + t, spell={'start': rng.choice(['start', 'START', 'Start']), 'end': rng.choice(['end', 'END'])}.get(cpp, '')))
        else:
            said = rng.choice(['beware', 'beware of {0}', '{', 'set {x: 1}', '50%', 'a } b'])
            f = rng.choice(['nowhere.py', 'a b.py', 'dir{x}/m.py', '{}.py'])
            cat, line = rng.choice(['UserWarning', 'RuntimeWarning', 'DeprecationWarning']), rng.randint(1, 99)
            ops.append(dict(op='pywarn', said=said, file=f, line=line, category=cat, text=f'{said} ({f}:{line}:{cat})'))
    return ops


def lines(raw, state):
    """Messages in what was written; None if it is not made of messages."""
    out = []
    for ln in raw.split('\n')[:-1]:
        m = re.fullmatch(STAMP + r'(?: (\x1b\[[0-9;]+m)?([A-Z]{4,5})(\x1b\[0m)?)?' + state + r'\] (.*)', ln)
        if not m or bool(m[1]) != bool(m[3]):
            return None
        out.append([m[2] or '', bool(m[1]), m[4]])
    return out if raw == '' or raw.endswith('\n') else None


def shown(raw, state=''):
    """Bars in what was written, and whether its line was ended."""
    out, end = [], len(raw)
    done = raw.endswith('\n')
    for part in raw.rstrip('\n').split('\r'):
        if not part:
            continue
        m = re.fullmatch(STAMP + r' (\x1b\[0;34m)?STAT(\x1b\[0m)?\] \[(\x1b\[0;34m)?(=*)(>?)( *)(\x1b\[0m)?\] (\d+)%(?: < (.*))?', part)
        if not m or len({bool(m[g]) for g in (1, 2, 3, 7)}) > 1:
            return None, done
        out.append(dict(pct=int(m[8]), pos=len(m[4]), width=len(m[4] + m[5] + m[6]), name=m[9] or '', colour=bool(m[1]), head=bool(m[5])))
    return out, done


def judge(op, g, o):
    k = op['op']
    if k in ('say', 'level', 'env'):
        if bool(g.get('err')) != (o['out'] == 'error'):
            return f'refused: {g["err"]}' if g['err'] else 'not refused'
        want = [[x['type'], x['colour'] and x['type'] != '', x['text']] for x in o['lines']]
        got = lines(g['raw'], '')
        return '' if got == want else f'wrote {g["raw"]!r} instead of {want}'
    if k in ('pysay', 'pywarn'):
        want = [[x['type'], x['text']] for x in o['lines']]
        got = lines(g['raw'], '')
        return '' if got is not None and [[x[0], x[2]] for x in got] == want else f'wrote {g["raw"]!r} instead of {want}'
    if k in ('split', 'join', 'ends', 'clock', 'path'):
        want = {f: [''.join(p) for p in v] if f == 'pieces' else ''.join(v) if f == 'joined' else v for f, v in o.items()}
        got = {f: g.get(f) for f in want}
        return '' if got == want else f'{got} instead of {want}'
    if bool(g.get('err')) != (o['out'] == 'error'):
        return f'refused: {g["err"]}' if g['err'] else 'not refused'
    got, done = shown(g['raw'])
    want = o['shown']
    if got is None or len(got) != len(want):
        return f'wrote {g["raw"]!r} instead of showing {want}'
    for a, b in zip(got, want):
        if {f: a[f] for f in b} != b or a['head'] != (b['pos'] < b['width']):
            return f'showed {a} instead of {b}'
    return '' if done == o['done'] else 'line ended' if done else 'line not ended'


def run(ctx):
    ctx.build(ext=True, cpp=True)
    exe = ctx.compile_harness('h_report.cpp')
    rng = ctx.rng
    sc = [cpp_messages(rng) for _ in range(ctx.pick(200, 3000))] + [bar(rng) for _ in range(ctx.pick(500, 8000))] + [texts(rng) for _ in range(ctx.pick(250, 4000))]
    # every number of tasks that the percentages divide unevenly, one task at a time
    for e in range(9):
        sc.append([dict(op='new', count=2**e, name='all')] + [dict(op='update', t=t) for t in range(1, 2**e + 1)])
        for _ in range(ctx.pick(1, 5)):
            w = 25*rng.randint(1, 255)
            sc.append([dict(op='new', count=2**e, name='all'), dict(op='every', w=w, text=repr(w*100/D))] + [dict(op='update', t=t) for t in range(2**e + 1)])
    py = [py_session(rng) for _ in range(ctx.pick(250, 3000))]
    got = ctx.drive(exe, [dict(ops=s) for s in sc], procs=8) + ctx.drive('d_report.py', [dict(ops=s) for s in py], procs=8)
    sc += py
    for s, g, o in zip(sc, got, ctx.oracle('Reporting', [dict(ops=s) for s in sc], cfgx=CFG)):
        ctx.traces += 1
        if 'log' not in g:
            ctx.violation(f'{s[0]["op"]}:crash', f'failed: {g.get("crash") or g.get("exception") or g}', [s, g])
            continue
        for op, a, b in zip(s, g['log'], o['log']):
            bad = judge(op, a, b)
            ctx.act(op['op'] + (':refused' if b.get('out') == 'error' else ':silent' if b.get('lines') == [] or b.get('shown') == [] else ''))
            if bad:
                ctx.violation(op['op'], f'{ {k: v for k, v in op.items() if k not in ("parts", "s", "d")} }: {bad}', [s, g, o])
                break
    measure(ctx)
    ctx.sample(sc[0])
    ctx.assumptions += ['progress at multiples of 1/256, so that it is exact in single precision; intervals likewise']


def measure(ctx):
    rng = ctx.rng
    jobs = []
    for j in range(ctx.pick(72, 600)):
        s, nb = c14.measurement(rng, j)
        l = rng.choice(c14.DEG)
        f = rng.choice(['diag', 'full', 'row', 'off-diag'])
        k = rng.randrange(nb) if f in ('row', 'off-diag') else 0
        bar = rng.choice([True, True, 20., 50, 25., 12.5, 5, 1., 1])
        if bar is not True and bar == 1:
            bar = 1.
        s.update(degrees=list(l), extra=dict(form=f, idx_bin=k), bar=bar, verbose=rng.choice([0, 10, 20, 30, 60, 60]))
        if 'wa' in s:
            s.pop('wa')
        jobs.append(s)
    got = ctx.drive('d_report.py', jobs, procs=8, env=dict(OMP_NUM_THREADS='1'))
    ins, meta = [], []
    for s, g in zip(jobs, got):
        if 'crash' in g or 'driver_error' in g:
            ctx.violation('measured:crash', f'failed: {g.get("crash", g)}', [s, g])
            continue
        bars, types, odd = [], set(), []
        for ln in re.split('[\r\n]', g['raw']):
            if not ln:
                continue
            m = re.fullmatch(STAMP + r' STAT\] \[=*>? *\] (\d+)% < component orders \((-?\d+), (-?\d+), (-?\d+)\)', ln)
            n = re.match(STAMP + r'(?: ([A-Z]{4}))? C\+\+\] ', ln)
            if m:
                name = [int(m[x]) for x in (2, 3, 4)]
                if not bars or bars[-1]['m'] != name:
                    bars.append(dict(m=name, pcts=[], done=False))
                bars[-1]['pcts'].append(int(m[1]))
            elif n and (n[1] or '') in DECADE:
                types.add(10*DECADE.index(n[1] or ''))
            else:
                odd.append(ln)
        for b in bars:
            b['done'] = f'{b["pcts"][-1]}% < component orders ({b["m"][0]}, {b["m"][1]}, {b["m"][2]})\r\n' in g['raw']
        if odd:
            ctx.violation('measured:line', f'wrote {odd[0]!r}', [s, g])
            continue
        w = 0 if s['bar'] is True else round(s['bar']*D/100)
        ins.append(dict(ops=[dict(op='measured', ell=s['degrees'], bars=bars, every=w, progbar=True, **{'global': 'gpp' in s['fn']}, types=sorted(types), verbose=s['verbose'], **{'with': g['digest'], 'without': g['plain']})]))
        meta.append((s, g))
    for (s, g), i, o in zip(meta, ins, ctx.oracle('Reporting', ins, cfgx=CFG)):
        ctx.traces += 1
        ctx.act('measured:' + s['fn'] + ':' + s['extra']['form'])
        if g['plain'] != g['again']:
            ctx.act('measured:unsteady')
            continue
        for k, ok in o['log'][0].items():
            if not ok:
                ctx.violation(f'measured:{k}', f'{s["fn"]} {s["degrees"]} {s["extra"]} with bar {s["bar"]} at verbosity {s["verbose"]}: {k} fails: {json.dumps(i["ops"][0]["bars"])[:300]} {i["ops"][0]["types"]}', [s, g, i])
