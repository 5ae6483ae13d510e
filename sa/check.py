"""python3-vt -m sa.check C06 [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys

from . import spec


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument('pid')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
  a = ap.parse_args(argv)
  ctx = spec.Ctx(a.pid, a.tier, a.seed)
  mod = importlib.import_module('sa.props.' + a.pid)
  ctx.rule = ' '.join((mod.RULE or '').split())
  ctx.explanation = ' '.join((mod.__doc__ or '').split())
  ctx.floor = getattr(mod, 'FLOOR', 0)
  mod.check(ctx)
  return ctx.finish()


if __name__ == '__main__':
  sys.exit(main())
