#!/usr/bin/env python3-vt
"""developer aid: run the contracts of spec modules and print what happens: prove1.py module[:function] ..."""
import sys, os, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/engine', V + '/specs']
os.environ['VVERB'] = '1'
import prove
for a in sys.argv[1:]:
    n, _, f = a.partition(':')
    m = importlib.import_module(n)
    P = prove.Prover(m.SRCS, 'quick', tuple(['offsets.cpp'] + getattr(m, 'TUS', [])))
    P.opts['focus'] = os.environ.get('FOCUS')
    getattr(m, f or 'run')(P)
    for r in P.results:
        for o in getattr(r, 'fails', []):
            print('   ', r.name, '|', o.status, '|', o.label, '|', o.where)
    print('solver calls %d %.1fs assumptions %s' % (P.nsolve, P.tsolve, sorted(P.assumptions)))
