import sys

from . import paths
paths.setup()
from . import loader  # noqa: E402
loader.install()


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    only = sys.argv[3] if len(sys.argv) > 3 else None
    import warnings
    warnings.simplefilter('ignore')
    import z3  # noqa: F401
    import galgebra.ga, galgebra.lt, galgebra.printer  # noqa: F401,E401
    from . import runner
    rc = runner.main(prop, tier, only)
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
