#!/usr/bin/python3
"""ev.py Cnn...  most expensive harnesses of the last run"""
import json, sys
for p in sys.argv[1:]:
    e = json.load(open('/verif/evidence/%s.json' % p))
    d = e['coverage']['harnesses']
    print(p, e['tier'], e['wall_s'], [(k, v['cpu_s'], v['executions']) for k, v in sorted(d.items(), key=lambda t: -t[1]['cpu_s'])[:7]])
