"""Write MANIFEST.json from the check modules and properties.jsonl."""
import glob
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
NA = {
    'C40': 'The parts summing to the quantity is a statement about sums of run-time floating point values; no structural '
           'part of the code decides it. (The structural neighbour - one share per matching index record, complete weight '
           'groups only - is C27.)',
    'C41': 'Preservation of totals is about sums of run-time floating point values. (The structural neighbours are C11 '
           'and C26.)',
    'C42': 'Equality of two numeric formulas (entropy) over arbitrary index contents; not decidable from the shape of the '
           'code.',
    'C43': 'Equality of all records after save and load is decided inside SQLite (VACUUM INTO / backup), outside the '
           'analysed source. (What the source decides - complete file, atomic replace - is C03.)',
    'C44': 'Which records match best depends on run-time label data and SQL evaluation; no structural part decides it.',
    'C21': 'Header and rows are lists whose lengths depend on the label columns, attributes and weight groups found at run '
           'time; deciding that every row has the length of the header needs lengths and an order that are correlated across '
           'two separate reads, which the abstract domain (no lengths of run-time lists) cannot bound without false alarms.',
    'C22': 'Whether a row is "applied" depends on what it says: several branches drop rows on purpose without a count (blank '
           'rows, quantities with no attribute value), so no rule over paths separates intended from accidental dropping.',
    'C23': 'The policies act through run-time values (existing value against new value, their sum) and different operations '
           'give the same word different documented effects; a rule over paths would restate the code. What is structural '
           '(an aborted operation changes nothing) is C01.',
    'C28': 'Equal selectors having equal hashes is a statement about case-folding functions on arbitrary Unicode text '
           '(lower() and upper() differ there); what each operator evaluates to is a statement about run-time text.',
    'C32': 'The comparison of labels or checksums with the record is a computation on run-time values (checksum arithmetic, '
           'string equality, per-row partial labels); a static order rule would accept any comparison, also a wrong one, so '
           'it would not decide the property.',
    'C45': 'Interleavings with other processes are decided by SQLite file locking, outside the analysed source.',
}
checks, na = [], []
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
for p in props:
    pid = p['id']
    f = os.path.join(V, 'checker', 'checks', pid.lower() + '.py')
    if os.path.exists(f):
        c = importlib.import_module('checker.checks.' + pid.lower()).check
        checks.append({
            'property': pid,
            'quick_cmd': f'python3 checker/run.py {pid}',
            'thorough_cmd': f'python3 checker/run.py {pid} --thorough',
            'technique': c.technique,
            'level': 'other',
            'level_note': c.level_note,
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No check has been built for this property yet.')})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q checker', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: /repo/src/toron is parsed on every run, nothing of it is executed.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
