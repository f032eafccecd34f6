"""run.py <ID>: decide one property on /repo's current source."""
import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))


def main():
    pid = sys.argv[1]
    from report import Report
    rep = Report(pid)
    try:
        import dump
        dump.program()
    except BaseException as e:
        rep.oblige('extraction', False, '/repo does not compile or its MIR cannot be read: %s' % traceback.format_exc()[-1500:])
        sys.exit(rep.finish())
    try:
        m = importlib.import_module(pid.lower())
        m.check(rep)
    except BaseException as e:
        rep.undecided('engine:' + type(e).__name__, 'the analysis could not be completed: %s' % traceback.format_exc()[-1500:])
    sys.exit(rep.finish())


if __name__ == '__main__':
    main()
