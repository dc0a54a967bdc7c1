"""C07: deposits of MeshRun.tla compared with the compiled mesh, cell by cell."""
import cmath, itertools, math
from common import close, tla

SCHEME = {1: 'ngp', 2: 'cic', 3: 'tsc', 4: 'pcs'}
KD = {1: lambda q: 1, 2: lambda q: q, 3: lambda q: 8*q*q, 4: lambda q: 6*q**3}


def scenarios(ctx):
    rng, out = ctx.rng, []

    def add(n, p, q, inter, xs, ws=None):
        den = 1
        for a in range(3):
            den *= KD[p](q[a])
        cap = max(1, min(9, (2**31 - 1) // den // max(1, len(xs)) - 1))
        ws = ws or [[rng.randint(-cap, cap), rng.randint(-cap, cap)] for _ in xs]
        out.append(dict(n=n, p=p, q=q, inter=inter, ps=[dict(x=list(x), w=w) for x, w in zip(xs, ws)]))

    # every sub-cell position along each axis, faces included
    for p in (1, 2, 3, 4):
        for inter in (False, True):
            for ax in range(3):
                for n1 in ctx.pick((2, 3, 4, 5), (2, 3, 4, 5, 6, 7, 8)):
                    n = [2, 3, 2]
                    n[ax] = n1
                    q1 = {1: 8, 2: 8, 3: 4, 4: 4}[p]
                    q = [2, 2, 2]
                    q[ax] = q1
                    if p == 1:
                        q = [4, 4, 4]
                        q[ax] = 8
                    xs = []
                    for x in range(n1*q1 + 1):
                        if p == 1 and (2*x + q1*(1 if False else 0)) % (2*q1) in ({0, q1} if inter else {q1}):
                            continue
                        v = [rng.randrange(n[a]*q[a]) for a in range(3)]
                        if p == 1:
                            v = [rng.choice([k for k in range(n[a]*q[a]) if k % q[a] not in ((0, q[a]//2) if inter else (q[a]//2,))]) for a in range(3)]
                        v[ax] = x
                        xs.append(v)
                    for k in range(0, len(xs), 3):   # few at a time so that one misplaced particle shows
                        add(n, p, q, inter, xs[k:k+3])
    # corners and edges of the box, and random fills
    for _ in range(ctx.pick(150, 2500)):
        p = rng.randint(1, 4)
        inter = rng.random() < .5
        n = [rng.randint(2, 5) for _ in range(3)]
        q = [rng.choice({1: (4, 8), 2: (2, 4, 6), 3: (2, 4), 4: (2,)}[p]) for _ in range(3)]
        if p == 4:
            q[rng.randrange(3)] = 4
        xs = []
        for _ in range(rng.randint(1, 6)):
            v = []
            for a in range(3):
                top = n[a]*q[a]
                c = rng.choice([rng.randrange(top + 1), 0, top, top - q[a]//2, top - 1, q[a]//2, 1])
                if p == 1:
                    bad = (0, q[a]//2) if inter else (q[a]//2,)
                    while c % q[a] in bad:
                        c = rng.randrange(top)
                v.append(c)
            xs.append(v)
        add(n, p, q, inter, xs)
    return out


def dft(f, n, sign):
    """3-d DFT of a flat complex list (separable, exact labels)."""
    def ax(g, a):
        tw = [cmath.exp(sign*2j*math.pi*k/n[a]) for k in range(n[a])]
        out = {}
        for idx in itertools.product(*[range(m) for m in n]):
            s = 0
            for x in range(n[a]):
                j = list(idx)
                j[a] = x
                s += g[tuple(j)]*tw[(idx[a]*x) % n[a]]
            out[idx] = s
        return out
    g = {idx: f[i] for i, idx in enumerate(itertools.product(*[range(m) for m in n]))}
    for a in range(3):
        g = ax(g, a)
    return [g[idx] for idx in itertools.product(*[range(m) for m in n])]


def signed(n):
    return [tuple(i if i < (m + 1)//2 else i - m for i, m in zip(idx, n))
            for idx in itertools.product(*[range(m) for m in n])]


def run(ctx):
    ctx.build(cpp=True)
    exe = ctx.compile_harness('h_field.cpp')
    # the specification itself: every deposit order of small scenarios
    rng = ctx.rng
    small = []
    for p in (1, 2, 3, 4):
        for inter in (False, True):
            for n in ([2, 3, 2], [4, 2, 3]):
                q = [2, 2, 2]
                small.append(dict(n=n, p=p, q=q, inter=inter, ps=[
                    dict(x=[rng.randrange(n[a]*2 + 1) for a in range(3)], w=[rng.randint(-3, 3), rng.randint(-3, 3)])
                    for _ in range(3)]))
    import json
    fin = ctx.path('small.json')
    json.dump(small, open(fin, 'w'))
    ctx.tlc('MeshRun', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANT AnyOrder = TRUE\n'
            'INVARIANT Conserved\nINVARIANT OrderFree\nINVARIANT Equivariant\n', env=dict(SCEN=fin))
    scen = scenarios(ctx)
    exp = ctx.oracle('MeshRun', scen, consts='CONSTANT AnyOrder = FALSE\n', cfgx='INVARIANT Emit\nINVARIANT Conserved\n')
    cells = [[0.25, 2., 1.], [4., .5, 8.], [1., 1., 1.]]
    prog = []
    for k, s in enumerate(scen):
        h = cells[k % 3]
        par = dict(boxsize=[s['n'][a]*h[a] for a in range(3)], ngrid=s['n'],
                   assignment=SCHEME[s['p']], interlace='true' if s['inter'] else 'false')
        ps = [dict(x=[x*h[a]/s['q'][a] for a, x in enumerate(p['x'])]) for p in s['ps']]
        w = [float(v) for p in s['ps'] for v in p['w']]
        st = [['assign', 'f', 'c', w], ['dump', 'f']]
        if s['inter']:
            st += [['fft', 'f'], ['dump', 'f']]
        # a second assignment to the same mesh must not accumulate
        st += [['assign', 'f', 'c', w], ['dump', 'f']]
        prog.append(dict(par=par, cats=dict(c=ps), prog=st))
    res = ctx.drive(exe, prog, procs=4)
    for k, (s, e, o) in enumerate(zip(scen, exp, res)):
        ctx.traces += 1
        ctx.act(f'{SCHEME[s["p"]]}{"/interlaced" if s["inter"] else ""}')
        key = f'{SCHEME[s["p"]]}:{"inter" if s["inter"] else "plain"}'
        if 'crash' in o or 'exception' in o:
            ctx.violation(key + ':crash', f'{o} for {s}', s)
            continue
        h = cells[k % 3]
        vc = h[0]*h[1]*h[2]
        cx = lambda v: [complex(v[2*i], v[2*i+1])*vc for i in range(len(v)//2)]
        outs = [cx(x['f']) for x in o['out'] if 'f' in x]
        want = [complex(*v)/e['den'] for v in e['f']]
        tol = 1e-9*max(1, sum(abs(complex(*p['w'])) for p in s['ps']))
        def cmp(got, want, what):
            bad = [i for i in range(len(want)) if not abs(got[i] - want[i]) <= tol]
            if bad:
                i = bad[0]
                c = list(itertools.product(*[range(m) for m in s['n']]))[i]
                ctx.violation(f'{key}:{what}', f'mesh {s["n"]} {SCHEME[s["p"]]} particles at {[p["x"] for p in s["ps"]]} '
                              f'(1/{s["q"]} cells): {what} cell {c} holds {got[i]} expected {want[i]}', s)
        cmp(outs[0], want, 'mesh')
        cmp(outs[-1], want, 'mesh after reassignment')
        if s['inter']:
            F = [x/vc for x in outs[1]]            # = vc * (..) already in volume units
            M = dft(want, s['n'], -1)
            nm = s['n'][0]*s['n'][1]*s['n'][2]
            S = []
            for f, m, sg in zip(F, M, signed(s['n'])):
                arg = math.pi*sum(a/b for a, b in zip(sg, s['n']))
                S.append((2*f - m)*cmath.exp(-1j*arg))
            sh = [x/nm for x in dft(S, s['n'], +1)]
            cmp(sh, [complex(*v)/e['den'] for v in e['g']], 'shadow mesh')
    for x in ([s for s in scen if s['inter']][:2] + scen[-2:]):
        ctx.sample(x)
    ctx.extra['scenarios'] = len(scen)
    ctx.assumptions += ['nearest-grid-point ties (particles exactly halfway between cells) are not compared',
                        'the shadow mesh is observed through the interlaced Fourier transform']
