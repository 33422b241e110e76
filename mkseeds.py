#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md"""
import json, os
H = os.path.dirname(os.path.abspath(__file__)) + '/seeded/'
print('| bug | caught by | what it breaks | needs |\n|-----|-----------|----------------|-------|')
for i in sorted(os.listdir(H)):
    m = json.load(open(H + i + '/meta.json'))
    print('| %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'].strip().replace('|', '/'), m['needs'].strip().replace('|', '/')))
