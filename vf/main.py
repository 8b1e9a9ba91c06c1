import os
import sys

from . import engine


def main(argv):
    cmd = argv[0]
    if cmd == 'replay':
        return engine.replay(argv[1])
    if cmd == 'selftest':
        engine.check_target()
        import glob
        ids = sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(
            os.path.join(engine.VERIF, 'vf', 'checks', 'c[0-9]*.py')))
        for pid in ids:
            engine.load_check(pid)
        print('ok: %d checks, python %s' % (len(ids), sys.version.split()[0]))
        return 0
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        return engine.run_check(cmd.upper(), tier, seed)
    except engine.Inconclusive as e:
        print('INCONCLUSIVE property=%s: %s' % (cmd, e))
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
