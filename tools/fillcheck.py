"""
Developer tool: replay harnesses on inputs spread over the bounds, to see that the
plain replays (used when a change defeats the encoding) raise no false alarms.
usage: fillcheck.py pNN [rounds]
"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import runner
runner.setup_paths()
from concurrent.futures import ProcessPoolExecutor


def one(a):
    mod, h, kw, seeds = a
    out = []
    for s in seeds:
        info = []
        v = runner.concrete_run(mod, h, kw, {}, s, info)
        out.append((v, info[0][0] if info else None, s))
    return h, kw, out


if __name__ == '__main__':
    name, rounds = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 6
    mod = runner.load_module(name)
    known = runner.load_known(mod.PROPERTY)
    tasks = mod.tasks('quick')
    jobs = [(name, t[0], t[1], [100 * r + i for r in range(rounds)]) for i, t in enumerate(tasks)]
    count, bad = {}, 0
    with ProcessPoolExecutor(int(os.environ.get('VERIF_JOBS', '4'))) as ex:
        for h, kw, out in ex.map(one, jobs, chunksize=2):
            for v, inputs, s in out:
                count[v[0]] = count.get(v[0], 0) + 1
                if v[0] in ('violation', 'error') or (v[0] == 'known' and v[1] not in known):
                    bad += 1
                    if bad <= 4:
                        print('BAD', h, kw, v[0], v[1], str(v[2])[-500:], inputs)
    print(name, count)
