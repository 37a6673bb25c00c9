"""Runs a check: fans the enumerated space out over all cores, aggregates what
was covered, compares violations with the known findings, writes evidence."""

import json
import multiprocessing as mp
import os
import sys
import traceback

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAXV = 12  # stop after that many violations


class Out:
    """what one task covered"""

    def __init__(self):
        self.n = {}  # counters
        self.viol = []
        self.samples = []

    def add(self, name, k=1):
        self.n[name] = self.n.get(name, 0) + k

    def violation(self, what, case, key=None):
        if len(self.viol) < MAXV:
            self.viol.append(
                {'what': what, 'case': core.fl(case), 'key': key or what}
            )

    def sample(self, s, cap=2):
        if len(self.samples) < cap:
            self.samples.append(core.fl(s))


def known_findings():
    """`known: property=<id> key=<key> :: <text>` lines; `fixed:` lines
    suppress nothing and are ignored here"""
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known:'):
                head, text = line[len('known:'):].split('::', 1)
                head = head.strip()
                pid = head.split()[0].split('=', 1)[1]
                key = head.split(' key=', 1)[1].strip()
                out.setdefault(pid, {})[key] = text.strip()
    return out


_mod = None


def _call(task):
    try:
        o = _mod.work(task)
        return o.n, o.viol, o.samples
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, KeyboardInterrupt):
            raise
        return (
            {'harness_errors': 1},
            [
                {
                    'what': f'unexpected {type(e).__name__}: {e}',
                    'case': {
                        'task': core.fl(task),
                        'traceback': traceback.format_exc(),
                    },
                    'key': f'exception {type(e).__name__}',
                }
            ],
            [],
        )


def run(mod, pid, tier, seed):
    global _mod
    _mod = mod
    t0 = core.real_time()
    deadline = t0 + (780 if tier == 'quick' else 6 * 3600)
    tasks = list(mod.tasks(tier))
    counters = {}
    viol = []
    samples = []
    done = 0
    complete = True
    nproc = min(os.cpu_count() or 1, 8, max(1, len(tasks)))
    ctx = mp.get_context('fork')
    pool = ctx.Pool(nproc, maxtasksperchild=getattr(mod, 'MAXTASKS', 200))
    try:
        it = pool.imap_unordered(_call, tasks, chunksize=1)
        while done < len(tasks):
            try:
                n, v, s = it.next(timeout=max(1.0, deadline - core.real_time()))
            except mp.TimeoutError:
                complete = False
                break
            done += 1
            for k, c in n.items():
                counters[k] = counters.get(k, 0) + c
            viol.extend(v)
            if len(samples) < 40:
                samples.extend(s[:2])
            if len(viol) >= MAXV:
                complete = False
                break
    finally:
        pool.terminate()
        pool.join()

    known = known_findings().get(pid, {})
    fresh = [v for v in viol if v['key'] not in known]
    hit = sorted({v['key'] for v in viol if v['key'] in known})
    for k in hit:
        print(f'KNOWN-FINDING: property={pid} {known[k]}')

    counters['tasks'] = done
    # no randomness is involved in any check; the seed only rotates which
    # samples are shown
    if samples:
        r = seed % len(samples)
        samples = (samples[r:] + samples[:r])[:5]
    cov = dict(counters)
    cov.setdefault('states', 0)
    cov.setdefault('transitions', 0)
    cov.setdefault('traces_validated_against_impl', 0)
    cov['samples'] = samples or ['(none)']
    cov['exhaustive'] = bool(complete)
    cov['bounds'] = getattr(mod, 'BOUNDS', {}).get(tier, '')
    ev = {
        'property': pid,
        'tier': tier,
        'seed': seed,
        'level': getattr(mod, 'LEVEL', 'model_checking'),
        'coverage': cov,
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(core.real_time() - t0, 2),
        'violations': len(fresh),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    brief = {k: v for k, v in cov.items() if isinstance(v, (int, float))}
    print(f'{pid} {tier} wall={ev["wall_s"]}s {brief}')
    rdir = os.path.join(VERIF, 'replays')
    for i, v in enumerate(fresh[:MAXV]):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{pid}-{i}.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, **v}, f, indent=1)
        print(f'  {v["what"]}')
        print(f'VIOLATION property={pid} replay={os.path.relpath(path, VERIF)}')
    sys.stdout.flush()
    return 1 if fresh else 0
