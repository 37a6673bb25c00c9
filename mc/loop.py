"""Checks that are decided by closed-loop exploration (engine E1): enumerate
problems x action sequences, run the real optimizer, compare every transition
with the reference semantics, keep the verdicts of one property."""

from . import engine
from .core import fl
from .env import run, undesc, _act
from .oracles import check

# criteria off: every run uses exactly its action sequence
NOCONV = dict(fatol=0.0, frtol=0.0, xtol=0.0, gatol=0.0, grtol=0.0)


def explore(pid, prob, seqs, out, maxiter=None, labels=None):
    labels = labels or (pid,)
    seen = set()
    for acts in seqs:
        m = maxiter if maxiter is not None else len(acts)
        tr = run(prob, acts, maxiter=m)
        out.add('traces_validated_against_impl')
        # states of the exploration tree: distinct answer prefixes
        for k in range(len(tr.calls)):
            seen.add(tuple(acts[:k]))
        bad = [msg for lab, msg in check(prob, tr, m, out, only=labels) if lab in labels]
        for msg in bad:
            out.violation(
                f'{msg} [{prob.solver}/{prob.strat} acts={acts}]',
                {'prob': prob.desc(), 'acts': acts, 'maxiter': m},
            )
        if bad and len(out.viol) >= 3:
            break
        if not out.samples and len(tr.calls) > 2:
            out.sample(
                {
                    'prob': prob.desc(),
                    'acts': acts,
                    'points': [c[0] for c in tr.calls],
                    'fvals': [c[1][0] for c in tr.calls],
                    'radii': [s.delta for s in tr.snaps[1:]],
                    'flag': getattr(tr.final.flag, 'name', '?'),
                }
            )
    out.add('states', len(seen))


def replay_loop(pid, case, out, labels=None):
    labels = labels or (pid,)
    prob = undesc(case['prob'])
    acts = [_act(a) for a in case['acts']]
    tr = run(prob, acts, maxiter=case['maxiter'])
    for lab, msg in check(prob, tr, case['maxiter']):
        if lab in labels:
            out.violation(msg, case)
    print(fl([(c[0], c[1]) for c in tr.calls]))


def chunk(seq, k):
    seq = list(seq)
    return [seq[i:i + k] for i in range(0, len(seq), k)]


def work_loop(pid, task, labels=None):
    """task: list of (Prob, list of action sequences, maxiter)"""
    out = engine.Out()
    for prob, seqs, m in task:
        explore(pid, prob, seqs, out, m, labels)
        out.add('configurations')
    return out
