#!/usr/bin/env python3
"""check.py ID : decide one property (see MANIFEST.json). exit 0 held, 1 violated, 2 no answer"""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from fw.fw import Ctx, Violation, CheckError, VERIF, log
from checks.registry import REGISTRY


def known(prop):
    res = []
    p = os.path.join(VERIF, 'known-findings')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=' + prop + ' '):
                res.append(l[len('finding: property=' + prop + ' '):])
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod, fn = REGISTRY[prop]
    ctx = Ctx(prop, tier, seed)
    try:
        m = importlib.import_module('checks.' + mod)
        getattr(m, fn)(ctx)
        ctx.evidence()
        for k in known(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        print('OK property=%s states=%d transitions=%d traces=%d' % (prop, ctx.cov['states'], ctx.cov['transitions'], ctx.cov['traces_validated_against_impl']))
        return 0
    except Violation as v:
        ctx.evidence(violations=1)
        rp = os.path.join(VERIF, 'out', 'replay-%s.json' % prop)
        with open(rp, 'w') as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, what=v.what, replay=v.replay), f, indent=1)
        log(v.what)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    except CheckError as e:
        log('NO ANSWER:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()


sys.exit(main())
