"""addfix.py PROP HASH TEXT: record a repaired defect."""
import json
import sys
p = '/verif/known_findings.json'
k = json.load(open(p))
k['fixed'].append('fixed: property={} {} {}'.format(*sys.argv[1:]))
json.dump(k, open(p, 'w'), indent=1)
