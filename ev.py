#!/usr/bin/env python3
"""Print a summary of evidence files"""
import json, sys, glob
for f in ([f'/verif/evidence/{a}.json' for a in sys.argv[1:]] or sorted(glob.glob('/verif/evidence/*.json'))):
    e = json.load(open(f)); c = e['coverage']
    print(e['property'], e['tier'], 'wall', e['wall_s'], 'eval', c['evaluations'], 'nontrivial', c['distinct_nontrivial'])
    for k, v in c['checks'].items():
        print('   ', k, v['evaluations'], v['nontrivial'], 'STOPPED' if v['stopped_early'] else '', v['labels'])
