"""Runs one job of a check in this process and writes its result."""
import importlib
import json
import sys

from mc import ctx as ctx_lib


def main():
  spec = json.loads(sys.argv[1])
  ctx = ctx_lib.Ctx(spec)
  try:
    with ctx.case('<import>'):
      mod = importlib.import_module(f'mc.checks.{spec["prop"].lower()}')
      mod.run  # pylint: disable=pointless-statement
    if not ctx.violations:
      # An exception outside of any case comes from preparing it, with valid
      # inputs, so it is the failure of that preparation.
      with ctx.case('<job>'):
        mod.run(ctx, spec['job'].get('args', {}))
  except ctx_lib.StopJob:
    ctx.exhaustive = False
  ctx.write()
  sys.stdout.flush()
  import os
  os._exit(0)


if __name__ == '__main__':
  main()
