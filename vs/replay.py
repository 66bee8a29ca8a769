"""python -m vs.replay FILE: re-runs a recorded counterexample on the unmodified library.  Exit 1: it reproduces."""
import importlib
import json
import sys

from . import paths
paths.setup(solver=False)


def main(path):
    import warnings
    warnings.simplefilter('ignore')
    with open(path) as f:
        d = json.load(f)
    import galgebra
    assert galgebra.__file__.startswith(paths.REPO), galgebra.__file__
    from . import harness
    mod = importlib.import_module(d['module'])
    fn = getattr(mod, d['fn'])
    ctx = harness.ReplayCtx(d['mode'], d['params'], d['model'], d['label'])
    print('replaying %s / %s, inputs %s' % (d['property'], d['task'], {k: str(v)[:60] for k, v in ctx.model.items()}))
    try:
        fn(ctx, **d['params'])
    except harness.Reproduced as e:
        print('REPRODUCED', e)
        return 1
    except Exception as e:
        from . import ref
        fr = 'result' if isinstance(e, ref.Malformed) else harness.galgebra_frame(e.__traceback__)
        if fr is None:
            import traceback
            traceback.print_exc()
            print('harness error')
            return 4
        print('REPRODUCED exception %s: %s in %s' % (type(e).__name__, str(e)[:300], fr))
        return 1
    print('not reproduced')
    return 3


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
