"""writes MANIFEST.json from the table below"""
import json
PROVED = set('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21'.split())
NOTE_P = 'Obligations generated from the current source are discharged for all inputs (see evidence: functions under contract, obligations, back ends). Assumes real arithmetic instead of floating point and the numpy/scipy contracts listed in the evidence. What the verifier cannot reach is checked by a bounded replay on the real code, labelled bounded.'
NOTE_B = 'Bounded: contracts evaluated on the real code over generated operands, shapes and histories; nothing is claimed beyond the cases explored.'
checks = []
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)['id']
    pr = p in PROVED
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p, evidence_file='evidence/%s.json' % p,
        technique='contracts on the extracted real code, discharged by symbolic execution with z3/cvc5; failing obligations replayed on the real code' if pr else 'contracts evaluated on the real code (bounded stand-in for the deductive check)',
        level='proof' if pr else 'exploration', level_note=NOTE_P if pr else NOTE_B))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[], notes='check.py PROP: deductive part (engine/) and bounded replay (harness/) on /repo\'s working tree; see DESIGN.md'), open('/verif/MANIFEST.json', 'w'), indent=1)
