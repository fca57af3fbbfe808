import importlib, os, sys, time, traceback
from . import core
from .build import BuildError


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    m = importlib.import_module('sa.props.' + prop.lower())
    try:
        ctx = core.Ctx(prop, tier, seed)
    except BuildError as e:
        # the tree cannot be read at all: no verdict about it
        print(e)
        return 2
    try:
        m.check(ctx)
    except core.Missing:
        pass
    except Exception as e:
        # a construct the analysis cannot digest: undecided, never an alarm
        ctx.add('analysis', core.UNDECIDED, 'the analysis runs to its end', detail=' | '.join(traceback.format_exc(limit=-4).splitlines()[-6:]))
    return core.finish(ctx, t0, m.INFO)


sys.exit(main())
