#!/usr/bin/env python3
"""Prints the tables of DESIGN.md: coverage of the last runs (evidence/) and the planted bugs (seeded/)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| property | executions of the real code | transitions | distinct states | distinct outcomes | families | all complete | seconds |\n|---|---|---|---|---|---|---|---|')
for f in sorted(glob.glob(V + '/evidence/*.json')):
    d = json.load(open(f)); c = d['coverage']
    print('| %s | %d | %d | %d | %d | %d | %s | %.0f |' % (d['property'], c['traces_validated_against_impl'], c['transitions'], c['states'], c['distinct_outcomes'], len(c['families']), 'yes' if c['exhaustive'] else 'no', d['wall_s']))
print('\n| planted bug | needs |\n|---|---|')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    print('| %s | %s |' % (os.path.basename(os.path.dirname(f)), m['needs']))
