#!/usr/bin/env python3
'''check.py PROPERTY: decide a property. Tier and seed are in VERIF_TIER and VERIF_SEED'''
import os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import lib
import importlib

MODULES = {'P01': 'parser', 'P02': 'parser', 'P03': 'parser', 'P04': 'build', 'P05': 'write', 'P06': 'write', 'P07': 'mutate', 'P08': 'pattern', 'P09': 'reduce', 'P10': 'select', 'P11': 'select', 'P12': 'path', 'P13': 'path', 'P14': 'path', 'P15': 'hist', 'P16': 'html', 'P17': 'cli', 'P18': 'conc', 'P19': 'detect', 'P20': 'syntax', 'P21': 'names', 'P22': 'serial'}


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = lib.Ctx(prop, tier, seed)
    try:
        importlib.import_module('harness.checks.' + MODULES[prop]).run(ctx)
    except lib.CheckError as e:
        if ctx.violations:
            print(f'(incomplete: {e})')
        else:
            print(f'ERROR {prop}: {e}', file=sys.stderr)
            return 2
    except Exception:
        traceback.print_exc()
        if not ctx.violations: return 2
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
