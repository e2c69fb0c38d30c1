#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'Quint specification; executions recorded from the library checked event by event against it (trace validation, exact arithmetic)'
MBT = 'Quint specification; behaviours generated from it replayed in the library (model-based testing)'
MC = 'exhaustive model checking with TLC'
NOTE_TV = ('Every recorded execution explored is a behaviour of the specification, whose steps are computed in 192-bit fixed-point arithmetic. Bounded by the generated '
           'systems, schedules and settings (seeded, varied by VERIF_SEED); tolerances are a few hundred times the rounding of doubles. Trusts the Quint simulator, the '
           'recording harness (public API only) and the encoder.')
T = {
 'C01': (MBT + '; ' + MC + ' of the walking machine; ' + TV, 'The walking machine is explored exhaustively (integer times up to 3, schedules up to 3, steps up to 2); its behaviours with exact dyadic times must be reproduced by the library exactly, row for row; walks of tens of thousands of steps are judged in chunks. ' + NOTE_TV),
 'C02': (MBT + '; ' + MC + ' of the walking machine; ' + TV, 'As C01; steps are observed through the solver record, the state of a quadrature problem that depends on every step, and the times at which the user equations are evaluated. ' + NOTE_TV),
 'C20': (MBT + '; ' + TV, 'Interruption, reload and copies are stuttering actions of the walking machine; the library is interrupted at them and must continue as the machine does; on random problems the interrupted and the uninterrupted run, and runs interleaved with or beside others on other threads, are compared bit for bit. Thread schedules are those the system happens to choose. ' + NOTE_TV),
 'C24': (TV + '; order conditions of the specified tableaus checked exactly', 'Order conditions up to order 5 hold exactly for the specified tableaus; observed convergence ratios and exactness on polynomials are clauses of the trace specification. ' + NOTE_TV),
}
for p in ('C03', 'C04', 'C05', 'C06', 'C10', 'C11', 'C16', 'C17', 'C18'): T[p] = (TV, NOTE_TV)
for p in ('C07', 'C08', 'C09'):
    T[p] = (MC + ' of the machine of attempts, acceptance, retries, proposals and record; ' + TV, 'The machine of adaptive stepping, whose error estimates are nondeterministic, is explored exhaustively '
            '(two report times, up to 3 attempts, 2 steps; 3 steps in the thorough tier); its control functions are the ones recorded executions are checked with. ' + NOTE_TV)
exec(open(os.path.join(V, 'tools', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'manifest_more.py')) else None
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
     'checks': [{'property': p, 'quick_cmd': 'python3 run.py check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py check ' + p, 'technique': T[p][0], 'level': 'model_checking', 'level_note': T[p][1]} for p in ids if p in T],
     'not_applicable': [{'property': p, 'reason': 'check under construction'} for p in ids if p not in T],
     'notes': 'Specification language: Quint. No hooks in /repo: everything is observed through the public API. thorough_cmd differs by VERIF_TIER=thorough.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')
