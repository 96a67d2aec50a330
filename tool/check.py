"""Runs the rules of one property: check.py <ID> [quick|thorough].
Exit 0: holds on everything analysed; 1: VIOLATION lines printed; 2: the analysis itself failed."""
import importlib, json, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    import facts, lib, model
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    ctx = lib.Ctx(prop, tier)
    mod = importlib.import_module('rules.' + prop.lower())
    try:
        P = model.load()
        ctx.count('translation units parsed', len(P.tus))
        ctx.count('function definitions in the program model', len(P.fns))
        if len(P.fns) < 2000:
            raise facts.AnalysisError('only %d functions extracted' % len(P.fns))
        mod.run(P, ctx)
        ev, new = ctx.finish()
    except facts.AnalysisError as e:
        print('ANALYSIS ERROR: property=%s %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS ERROR: property=%s internal error' % prop)
        return 2
    with open(os.path.join(facts.VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s: %s; %d violation(s), %.1f s' % (prop, 'VIOLATED' if new else 'holds on everything analysed', len(new),
                                              ev['wall_s']))
    return 1 if new else 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':         # the same order of sets in every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
