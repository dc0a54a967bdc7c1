"""C12: bispectrum against the direct triplet sums of ThreePt.tla."""
import stats3


def run(ctx):
    ctx.build(ext=True)
    stats3.check(ctx, 'fourier', ctx.pick(200, 2500))
