"""C04: histories of parameter sets against Params.tla, from Python (items and C++ side) and through files read by the C++ class."""
import os
from parset import *

INV = 'INVARIANT Emit\nINVARIANT Coherent\nINVARIANT Sensible\n'


def history(rng, j):
    while True:
        s = base(rng, True)
        s.update(alter(rng, s, rng.choice([0, 0, 0, 1, 1, 2, 3]), True))
        if not fits(s):
            continue
        cur, ops = dict(s), []
        for _ in range(rng.choice([0, 1, 3, 5])):
            ch = alter(rng, cur, rng.choice([1, 1, 1, 2, 3]), True)
            if rng.random() < .25:      # back to something valid
                b = base(rng, True)
                ch = {f: b[f] for f in b if f != 'save'} if rng.random() < .5 else dict(ch, **{f: b[f] for f in ('stat', 'cat', 'form', 'idx', 'nb', 'norm', 'binning')})
            for g in GROUPS:      # grouped settings are assigned together
                if any(f in ch for f in g):
                    for f in g:
                        ch.setdefault(f, cur[f])
            t = dict(cur, **ch)
            if not fits(t):
                break
            ops.append(ch)
            cur = t
        else:
            return dict(route='py', start=s, ops=ops)


def python_side(ctx, count):
    rng = ctx.rng
    scen = [history(rng, j) for j in range(count)]
    exp = ctx.oracle('Params', scen, cfgx=INV)
    jobs = []
    for s in scen:
        ops = []
        for ch in s['ops']:
            d = {}
            for f in ch:
                if f != 'save':
                    k, v = top(rng, ch, f)
                    d.setdefault(k, v)
            ops.append(dict(how=rng.choice(['item', 'attr']) if len(d) == 1 else rng.choice(['bulk', 'kw']), set=d))
        jobs.append(dict(start=pydict(rng, s['start']), ops=ops, file=rng.random() < .2))
    env = ctx.pyenv(VERIF_PEEK=ctx.compile_peek())
    res = ctx.drive('d_params.py', jobs, procs=6, env=env)
    for s, o, d, g in zip(scen, exp, jobs, res):
        ctx.traces += 1
        if 'log' not in g:
            ctx.violation('python:crash', f'parameter set history crashed: {g}', [s, d])
            continue
        for k, (w, x) in enumerate(zip(o['log'], g['log'])):
            what = ('construction' if k == 0 else d['ops'][k - 1]['how'])
            ch = d['start'] if k == 0 else d['ops'][k - 1]['set']
            ctx.act(f'py:{"ok" if w["ok"] else w["why"]}')
            if x['ok'] != w['ok']:
                why = x.get('err', 'accepted')
                ctx.violation(f'python:{"rejects-valid" if w["ok"] else "accepts:" + w["why"]}',
                              f'{what} with {ch}: {why}, expected {"a valid set" if w["ok"] else "rejection by rule " + w["why"]}', [s, d, g])
                break
            if not x['same']:
                ctx.violation(f'python:{"input" if k == 0 else "rejected"}-changed', f'{what} with {ch} changed {"the given dictionary" if k == 0 else "the set although it was rejected"}', [s, d, g])
            if not x['ok'] and k == 0:
                break
            v = w['view']
            bad = cpp_diff(v, x['cpp']) + item_diff(v, x['items'])
            if bad:
                ctx.violation(f'python:state:{bad[0].split(" =")[0]}', f'after {what} with {ch} (step {k}): ' + '; '.join(bad), [s, d, g])
                break
    ctx.sample(dict(scenario=scen[1], job=jobs[1]))


def file_side(ctx, count):
    """The same rules when the C++ class reads a file."""
    rng = ctx.rng
    import parfile
    scen = []
    while len(scen) < count:
        s = base(rng, False)
        s.update(alter(rng, s, rng.choice([0, 1, 1, 2, 3]), False))
        s['save'] = rng.choice([dict(mode='off', abs=False, name=''), dict(mode='on', abs=False, name=''), dict(mode='path', abs=False, name='bv.txt'), dict(mode='path', abs=False, name='b'), dict(mode='path', abs=True, name='/abs/bv.txt')])
        if fits(s):
            scen.append(dict(route='file', start=s, ops=[]))
    exp = ctx.oracle('Params', scen, cfgx=INV)
    h = ctx.compile_harness('h_params.cpp')
    jobs = [dict(op='read', text=parfile.plain(s['start'])) for s in scen]
    res = ctx.drive(h, jobs, procs=4)
    for s, o, d, g in zip(scen, exp, jobs, res):
        ctx.traces += 1
        w = o['log'][0]
        ctx.act(f'file:{"ok" if w["ok"] else w["why"]}')
        if g.get('ok') is None or bool(g['ok']) != w['ok']:
            ctx.violation(f'file:{"rejects-valid" if w["ok"] else "accepts:" + w["why"]}', f'parameter file {d["text"]!r}: {g}, expected {"a valid set" if w["ok"] else "rejection by rule " + w["why"]}', [s, d, g])
        elif w['ok']:
            bad = cpp_diff(w['view'], g['p'])
            if bad:
                ctx.violation(f'file:state:{bad[0].split(" =")[0]}', f'parameter file {d["text"]!r}: ' + '; '.join(bad), [s, d, g])


def run(ctx):
    ctx.build(ext=True, cpp=True)
    python_side(ctx, ctx.pick(1500, 30000))
    ctx.log('Python histories compared')
    file_side(ctx, ctx.pick(1500, 30000))
