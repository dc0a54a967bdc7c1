"""C01: Python catalogue histories generated by TLC from Catalogue.tla are
replayed through triumvirate.catalogue.ParticleCatalogue."""
from common import tla

U = 64           # spec unit: 1/64 of a length unit (exact in binary floats)
AX = 'xyz'


def pools(rng, n):
    out = []
    for _ in range(n):
        def cat(m):
            ps = []
            for _ in range(m):
                ps.append(dict(pos=[rng.randrange(-6, 14) * U for _ in range(3)],
                               nz=[rng.randrange(1, 5), 1], ws=rng.randrange(1, 4), wc=rng.randrange(1, 4)))
            return ps
        out.append(dict(cat=cat(rng.choice([1, 2, 3])), ref=cat(rng.choice([1, 2, 3]))))
    return out


def consts(rng, npool):
    pool = pools(rng, npool)
    boxes = [[8 * U, 8 * U, 8 * U], [16 * U, 8 * U, 32 * U]]
    origins = [[3 * U, -5 * U, 0], [-U, 2 * U, 7 * U]]
    pads = [[1, 8], [0, 1], [2, 1], [-1, 4]]
    grids = [4, 8]
    cols = []
    for name in ('x', 'z', 'y', 'ws', 'wc', 'nz'):
        for m in (1, 2, 3):
            cols.append([name, [rng.randrange(-4, 9) * U if name in AX else rng.randrange(1, 6)
                                for _ in range(m)]])
    return pool, boxes, origins, pads, grids, cols


def defs(c):
    pool, boxes, origins, pads, grids, cols = c
    st = lambda xs: '{' + ', '.join(tla(x) for x in xs) + '}'
    return (f'CPool == {st(pool)}\nCBoxes == {st(boxes)}\nCOrigins == {st(origins)}\n'
            f'CPads == {st(pads)}\nCGrids == {st(grids)}\nCCols == {st(cols)}\nCVol == {{64, 2}}\n')


CONS = ('CONSTANTS Pool <- CPool\nBoxes <- CBoxes\nOrigins <- COrigins\nPads <- CPads\n'
        'Grids <- CGrids\nCols <- CCols\nVolumes <- CVol\n')
PROPS = ('INVARIANT SummariesCurrent\nINVARIANT Placed\nPROPERTY Rigid\nPROPERTY CongruentWrap\n'
         'PROPERTY WeightsKept\nPROPERTY RejectionsKeep\nCHECK_DEADLOCK FALSE\n')


def run(ctx):
    ctx.build(ext=True)
    rng = ctx.rng
    # (a) design: every history up to the bound, exhaustively.
    d = defs(consts(rng, 2)) + f'LevelBound == TLCGet("level") < {ctx.pick(4, 5)}\n'
    ctx.tlc('Catalogue', 'SPECIFICATION Spec\n' + CONS + PROPS + 'CONSTRAINT LevelBound\n', defs=d)
    # (b) behaviours of the specification, replayed.
    beh = []
    rounds, num, depth = ctx.pick((3, 40, 7), (10, 300, 9))
    for k in range(rounds):
        c = consts(rng, 6)
        r = ctx.tlc('CatalogueGen', 'SPECIFICATION GSpec\n' + CONS + f'Depth = {depth}\nCHECK_DEADLOCK FALSE\n'
                    + 'INVARIANT Emit\nINVARIANT SummariesCurrent\nINVARIANT Placed\n', defs=defs(c),
                    simulate=num, depth=depth + 1, workers=1)
        beh += rng.sample(r['json'], min(len(r['json']), ctx.pick(700, 6000)))
    # every single step and pair of steps from one start, exhaustively
    c = consts(rng, 1)
    r = ctx.tlc('CatalogueGen', 'SPECIFICATION GSpec\n' + CONS + 'Depth = 2\nCHECK_DEADLOCK FALSE\n'
                + 'INVARIANT Emit\nCONSTRAINT BoundC\n', defs=defs(c) + 'BoundC == Len(hist) < 3\n', workers=4)
    short = r['json']
    if ctx.quick and len(short) > 1500:
        short = rng.sample(short, 1500)
    beh += short
    ctx.log(len(beh), 'behaviours')
    res = ctx.drive('d_catalogue.py', [dict(u=U, hist=b) for b in beh], procs=4)
    for b, o in zip(beh, res):
        ctx.traces += 1
        for s in b[1:]:
            ctx.act(s['ev']['op'])
        if 'crash' in o:
            ctx.violation('crash', f'interpreter crashed: {o}', b)
            continue
        if o.get('bad'):
            k, what = o['bad'][0]
            ops = ' -> '.join(s['ev']['op'] for s in b[:k + 1])
            ctx.violation(f'{b[k]["ev"]["op"]}:{what.split(":")[0]}', f'after {ops}: {what}', b[:k + 1])
    ctx.sample([s['ev'] for s in beh[0]])
    ctx.sample([s['ev'] for s in beh[-1]])
