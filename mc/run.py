import argparse
import importlib
import json
import logging
import os
import signal
import sys
import traceback

from mc import core


def load_repo():
    """Make sure the package checked is the one in the repository."""
    sys.path.insert(0, core.REPO)
    logging.disable(logging.CRITICAL)
    import sbclassifier
    where = os.path.realpath(sbclassifier.__file__)
    assert where.startswith(os.path.realpath(core.REPO) + os.sep), where


def main():
    a = argparse.ArgumentParser()
    a.add_argument('property', nargs='?')
    a.add_argument('--tier', default=None)
    a.add_argument('--replay')
    a.add_argument('--jobs', type=int)
    args = a.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    # Nothing the code does may depend on or touch the starting directory.
    core.scratch_root()
    os.makedirs(os.path.join(core.scratch_root(), 'cwd'), exist_ok=True)
    replay = args.replay and os.path.abspath(args.replay)
    os.chdir(os.path.join(core.scratch_root(), 'cwd'))
    try:
        if replay:
            with open(replay) as f:
                r = json.load(f)
            args.property = r['property']
        module = importlib.import_module('mc.checks.' + args.property.lower())
        if hasattr(module, 'before_import'):
            module.before_import()
        load_repo()
        if hasattr(module, 'setup'):
            module.setup()
    except BaseException:
        traceback.print_exc()
        return core.EXIT_ERROR
    if replay:
        signal.signal(signal.SIGALRM, core.on_alarm)
        if hasattr(module, 'prepare'):
            module.prepare(tier, seed)
        core.guard.install(core.scratch_root())
        rec = core.Rec(module, [0], {})
        case = core.unpack(r['case'])
        judge = core.Exploring(module) if case[0] == core.EXPLORE else module
        message = core.run_case(judge, case, rec)
        import shutil
        shutil.rmtree(core.scratch_root(), ignore_errors=True)
        if message:
            print('%s: %s' % (args.property, message[1]))
            print('VIOLATION property=%s replay=%s' % (args.property, replay))
            return core.EXIT_VIOLATION
        print('held')
        return core.EXIT_HELD
    return core.run_check(module, tier, seed, args.jobs)


if __name__ == '__main__':
    try:
        code = main()
    except BaseException:
        traceback.print_exc()
        code = core.EXIT_ERROR
    sys.stdout.flush()
    os._exit(code)
