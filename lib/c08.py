"""C08: behaviours of FieldOps.tla replayed on the compiled mesh field."""
import json
from geom import *

SCHEME = {1: 'ngp', 2: 'cic', 3: 'tsc', 4: 'pcs'}


def scenario(rng, p, inter, survey, n, lmax):
    q = {1: [4, 4, 4], 2: [2, 2, 2], 3: [2, 2, 2] if inter else [1, 2, 1], 4: [2, 2, 2] if inter else [1, 1, 1]}[p]

    def part():
        x = []
        for a in range(3):
            top = n[a]*q[a]
            c = rng.randrange(top + 1)
            if p == 1:
                c = rng.choice([k for k in range(top) if k % 4 in ((1, 3) if inter else (0, 1, 3))])
            x.append(c)
        return dict(x=x, l=los(rng, norm), ws=rng.choice([1, 1, 2]), wc=rng.choice([1, 2]),
                    raw=[rng.randint(-3, 3), rng.randint(-3, 3)])
    # the integers stay within TLC's 32 bits
    norm = rng.choice([1, 3]) if lmax > 1 else rng.choice([1, 3, 5, 7])
    if p >= 3:
        norm = 1
    kinds = [['assign', 0, 0], ['unweighted', 0, 0], ['fluct', 0, 0]]
    if survey:
        lm = rng.choice([(l, m) for l in range(lmax + 1) for m in range(-l, l + 1)])
        kinds += [[k, *lm] for k in ('ylm1', 'ylm2', 'quad1', 'quad2')]*2
    builds = rng.sample(kinds, 2)
    return dict(builds=builds, n=n, p=p, q=q, inter=inter, survey=survey, lmax=lmax, los=norm,
                alpha=rng.choice([[1, 2], [1, 1], [2, 1]]),
                cat=[part() for _ in range(rng.randint(1, 3))], ran=[part() for _ in range(rng.randint(1, 3))])


def expected(s, e):
    """Numerical cell or mode values (volume units / transform units)."""
    n, nm = s['n'], math.prod(s['n'])
    op = e['base']
    k = pref(op[1], op[2])/e['den']
    if e['fresh']:
        return [complex(*v)*k for v in e['v']]
    F = [cyc(v)*k for v in e['v']]
    if e['c']:
        F = [f/w**e['c'] for f, w in zip(F, window(n, s['p']))]
    if e['rep'] == 'config':
        F = [x/nm for x in idft(F, n)]
    return F


def run(ctx):
    ctx.build(cpp=True)
    exe = ctx.compile_harness('h_field.cpp')
    rng = ctx.rng
    scen = []
    meshes = [[2, 2, 3], [2, 3, 2], [3, 2, 2], [4, 2, 3], [2, 3, 4], [3, 3, 3], [4, 2, 2], [6, 2, 2], [2, 6, 3], [3, 4, 2]]
    for n in meshes:
        for p in (1, 2, 3, 4):
            for inter in (False, True):
                for _ in range(ctx.pick(2, 16)):
                    scen.append(scenario(rng, p, inter, p < 3 or not inter, n, rng.choice([1, 2]) if p < 3 else 1))
    fin = ctx.path('scen.json')
    json.dump(scen, open(fin, 'w'))
    depth = 4
    r = ctx.tlc('FieldOps', f'SPECIFICATION Spec\nCONSTANT Depth = {depth}\nCHECK_DEADLOCK FALSE\nINVARIANT Emit\n'
                'INVARIANT FluctZeroMode\nINVARIANT Hermitian\nPROPERTY RoundTrip\n', env=dict(SCEN=fin))
    seen, beh = set(), []
    for b in r['json']:
        k = json.dumps([b['i'], [h['op'] for h in b['h']]])
        if k not in seen:
            seen.add(k)
            beh.append(b)
    ctx.log(len(beh), 'behaviours')
    cell = [[.5, 2., 1.], [1., 1., 1.], [4., 1., .25]]
    prog = []
    for j, b in enumerate(beh):
        s = scen[b['i'] - 1]
        h = cell[j % 3]
        cat = lambda ps: [dict(x=[x*h[a]/s['q'][a] for a, x in enumerate(p['x'])], los=p['l'], ws=p['ws'], wc=p['wc']) for p in ps]
        st, al = [], s['alpha'][0]/s['alpha'][1]
        base = None
        for e in b['h']:
            op = e['op']
            if op[0] == 'assign':
                st.append(['assign', 'f', 'c', [float(v) for p in s['cat'] for v in p['raw']]])
            elif op[0] in ('unweighted', 'fluct'):
                st.append([op[0], 'f', 'c'])
            elif op[0] in ('ylm2', 'quad2'):
                st.append([op[0], 'f', 'c', 'r', al, op[1], op[2]])
            elif op[0] in ('ylm1', 'quad1'):
                st.append([op[0], 'f', 'r', al, op[1], op[2]])
            else:
                st.append([op[0], 'f'])
            st.append(['dump', 'f'])
            if len(op) == 3:
                base = op
            e['base'] = base
        prog.append(dict(par=dict(boxsize=[m*x for m, x in zip(s['n'], h)], ngrid=s['n'], assignment=SCHEME[s['p']],
                                  interlace='true' if s['inter'] else 'false'),
                         cats=dict(c=cat(s['cat']), r=cat(s['ran'])), prog=st))
    res = ctx.drive(exe, prog, procs=4)
    for j, (b, o) in enumerate(zip(beh, res)):
        s = scen[b['i'] - 1]
        ctx.traces += 1
        if 'out' not in o:
            ctx.violation('crash', f'{o}', [s, [h['op'] for h in b['h']]])
            continue
        dumps = [x['f'] for x in o['out'] if 'f' in x]
        h = cell[j % 3]
        vc = h[0]*h[1]*h[2]
        for k, (e, d) in enumerate(zip(b['h'], dumps)):
            op = e['op'][0]
            ctx.act(op)
            got = [complex(d[2*z], d[2*z + 1]) for z in range(len(d)//2)]
            if e['rep'] == 'config':
                got = [g*vc for g in got]
            want = expected(s, e)
            scale = max([1.] + [abs(x) for x in want])
            bad = [z for z in range(len(want)) if not abs(got[z] - want[z]) <= 1e-9*scale]
            if bad:
                z = bad[0]
                ops = ' -> '.join(str(x['op']) for x in b['h'][:k + 1])
                ctx.violation(f'{op}:{"inter" if s["inter"] else "plain"}:{SCHEME[s["p"]]}',
                              f'mesh {s["n"]} {SCHEME[s["p"]]} interlace={s["inter"]}, after {ops}: '
                              f'{"cell" if e["rep"] == "config" else "mode"} {cells(s["n"])[z]} is {got[z]} expected {want[z]}',
                              [s, [x['op'] for x in b['h'][:k + 1]]])
                break
    ctx.sample([h['op'] for h in beh[0]['h']])
    ctx.sample(dict(scenario=scen[beh[-1]['i'] - 1], ops=[h['op'] for h in beh[-1]['h']]))
    ctx.extra['behaviours'] = len(beh)
