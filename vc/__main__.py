import sys
import types

sys.dont_write_bytecode = True
if 'thevenin' not in sys.modules:
    try:
        import thevenin  # noqa: F401
    except ImportError:     # external solver package, not installed: stands behind an assumed contract
        m = types.ModuleType('thevenin')
        m.Model = type('Model', (), {})
        m.Experiment = type('Experiment', (), {})
        sys.modules['thevenin'] = m

from vc import runner  # noqa: E402

sys.exit(runner.main(sys.argv[1], sys.argv[2:]))
