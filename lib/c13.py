"""C13: three-point correlation function and window against the direct triplet sums of ThreePt.tla."""
import stats3


def run(ctx):
    ctx.build(ext=True)
    stats3.check(ctx, 'config', ctx.pick(200, 2500))
