"""python -B -m mc.run C06 [quick|thorough]        decide one property
   python -B -m mc.run --replay replays/C06.json   re-execute one recorded case"""
import glob
import importlib
import json
import os
import shutil
import sys
import tempfile

from mc import engine, env


def load(prop):
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks')
    names = glob.glob(os.path.join(here, '%s_*.py' % prop.lower()))
    if len(names) != 1:
        raise SystemExit('no check for %s' % prop)
    return importlib.import_module('mc.checks.' + os.path.basename(names[0])[:-3])


def main(argv):
    env.setup()
    if argv[0] == '--replay':
        record = json.load(open(argv[1]))
        module = load(record['property'])
        scratch = tempfile.mkdtemp(prefix='mc-replay-')
        try:
            if hasattr(module, 'prepare'):
                module.prepare(scratch)
            ctx = engine.Ctx()
            ctx.scratch = scratch
            what = engine.run_case(module, record['case'], ctx)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        print('case %s' % engine.case_key(record['case']))
        print('the property held' if what is None else what)
        return 0 if what is None else 1
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return engine.main(load(argv[0]), tier, int(os.environ.get('VERIF_SEED') or 1))


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:  # an error of the check itself, never a verdict
        import traceback
        traceback.print_exc()
        code = 3
    sys.exit(code)
