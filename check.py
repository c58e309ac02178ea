#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] -- decides one property on /repo's current working tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import build, core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    a = ap.parse_args()
    prop = a.prop.upper()
    mod = importlib.import_module('checks.' + prop.lower())
    ctx = core.Ctx(prop, a.tier, int(os.environ.get('VERIF_SEED') or 1), mod.LEVEL)
    try:
        mod.check(ctx)
    except build.BuildError as e:
        print('error: cannot build: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return ctx.finish()


if __name__ == '__main__':
    rc = main()
    sys.exit(rc)
