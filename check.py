#!/usr/bin/env python3
"""check.py Cxx [--thorough]: decide one property from the source of /repo (static analysis)."""
import importlib, os, signal, sys, threading, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)


def main():
    import warnings
    warnings.simplefilter('ignore')
    from sa.framework import Ctx
    prop = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
    ctx = Ctx(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    mod = importlib.import_module('sa.checks.' + prop.lower())
    code = [0]

    def work():
        try:
            mod.run(ctx)
        except BaseException as e:       # the analysis itself failed: nothing is decided, no alarm
            ctx.ob('analysis', 'undecided', '%s: %s' % (type(e).__name__, traceback.format_exc()[-600:]))
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
        code[0] = ctx.finish(getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', ()))

    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(800 if tier == 'quick' else 3000)
    if t.is_alive():
        ctx.ob('analysis', 'undecided', 'time limit')
        code[0] = ctx.finish(getattr(mod, 'LEVEL', 'other'), mod.EXPLANATION, getattr(mod, 'ASSUMPTIONS', ()))
    sys.stdout.flush()
    os._exit(code[0])


main()
