"""writes /verif/MANIFEST.json from the table below (only checks whose module
exists are claimed)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOOP = ('stateless exploration of the real optimizer closed with an '
        'adversarial objective: every answer sequence of bounded length, ')
NOTE = ('The real code of /repo is executed for every explored behaviour. '
        'Bounds (problem sizes, alphabets, lengths) are in the evidence file '
        'and DESIGN.md; trusts numpy, the interpreter and the reference '
        'semantics in mc/. ')
T = {
    'C01': (LOOP + 'invariant on every evaluated point',
            'Behaviours within the alphabets only; floating-point inputs are '
            'a finite lattice.'),
    'C02': (LOOP + 'each transition compared with a reference acceptance rule',
            'Decisions within the rounding-error interval of the reference '
            'are not judged.'),
    'C03': (LOOP + 'reference minimum tracker run in lock step', ''),
    'C04': (LOOP + 'array-reuse adversaries compared bitwise with an '
            'undisturbed run', ''),
    'C05': (LOOP + 'radius reference automaton; step length on a full state '
            'lattice',
            'Decisions within the rounding-error interval are not judged.'),
    'C06': ('exhaustive enumeration of a state lattice driven through the real '
            'optimizer; independent reference candidates', ''),
    'C07': ('exhaustive enumeration of subproblem lattices on the real '
            'solver; optimality certified by a dual lower bound',
            'Up to documented rounding tolerance.'),
    'C08': ('exhaustive enumeration of subproblem lattices on the real '
            'solver; exact rational oracle', ''),
    'C09': ('exhaustive enumeration of box QPs and starts, full runs of the '
            'real optimizer; optimum by active-set enumeration',
            'Accuracy is judged up to the default tolerances.'),
    'C10': (LOOP + 'over a lattice of tolerances; reference stopping rule', ''),
    'C11': (LOOP + 'under a virtual clock; budget reference', 
            'Trusts that the clock functions of module time are the only '
            'source of time.'),
    'C12': ('exhaustive fault injection: every fault kind at every position '
            'of every bounded history', ''),
    'C13': ('exhaustive enumeration of update histories on the real classes '
            'and through the optimizer; exact rational reference model', ''),
    'C14': ('exhaustive enumeration of update histories; reference model of '
            'every published scheme run in lock step', ''),
    'C15': ('exhaustive enumeration of run histories on one optimizer; '
            'bitwise differential oracle with a fresh one', ''),
    'C16': ('controlled-scheduler exploration of thread interleavings (all '
            'call interleavings, all single preemptions) and nestings; '
            'differential oracle',
            'Preemption bound 1 at line granularity in the quick tier; '
            'interleavings are those CPython can take between lines / '
            'bytecodes of fides.'),
    'C17': ('exhaustive enumeration of the option lattice; refusal and '
            'reference semantics of every accepted value', ''),
    'C18': ('exhaustive enumeration of contract violations (output kinds x '
            'configurations); refusal after exactly one evaluation', ''),
    'C19': ('exhaustive enumeration of run histories into a real HDF5 file in '
            'a scratch folder; file compared with the observed trace', ''),
    'C20': (LOOP + 'in residual mode; lock-step comparison with the '
            'equivalent direct objective', ''),
    'C21': ('exhaustive enumeration of a state lattice and of short histories '
            'driven through the real optimizer; distances of every trial '
            'point to the bounds against the reference fraction', ''),
    'C23': ('exhaustive enumeration of non-convex problems, boxes and starts, '
            'full runs of the real optimizer; optimality conditions of the '
            'end point', 'Accuracy is judged up to the default tolerances.'),
    'C24': ('exhaustive fault injection: every kind of exception at every '
            'evaluation of bounded histories; state, file and global state '
            'before and after; differential oracle',
            'Only the listed kinds of global state are observed.'),
    'C25': (LOOP + 'compared with the run on the transformed problem',
            'Unstable decisions (perturbation 1e-12) are not judged.'),
    'C22': (LOOP + 'log records compared with the observed trace', ''),
}
NA = {}
checks = []
na = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'mc', 'checks', p.lower() + '.py')):
        tech, note = T[p]
        checks.append({
            'property': p, 'quick_cmd': f'./check.sh {p}',
            'thorough_cmd': f'./check.sh {p} --tier thorough',
            'technique': 'model checking: ' + tech,
            'level': 'model_checking', 'level_note': (NOTE + note).strip(),
        })
    else:
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
json.dump({
    'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: everything observed is public API, so /repo carries '
             'no instrumentation.',
}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
