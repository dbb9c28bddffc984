#!/opt/venv/bin/python
"""
run.py CHECK [--tier quick|thorough] [-v] [--only TEXT] [--jobs N]
run.py --replay FILE
"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)


def main(argv):
    from vlib import runner
    if argv and argv[0] == '--replay':
        return runner.replay_file(argv[1])
    if argv and argv[0] == '--replay-batch':
        return runner.replay_batch_main()
    if argv and argv[0] == '--selftest':
        return runner.selftest()
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    verbose = False
    jobs = None
    names = []
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == '--tier':
            i += 1
            tier = argv[i]
        elif a == '--only':
            i += 1
            only = argv[i]
        elif a == '--jobs':
            i += 1
            jobs = int(argv[i])
        elif a == '-v':
            verbose = True
        else:
            names.append(a)
        i += 1
    return runner.run_check(names[0], tier, jobs=jobs, only=only, verbose=verbose)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
