#!/usr/bin/env python3
# Prints the table of planted bugs for DESIGN.md; caught.json says what the
# checks reported the last time tools/plant.sh was run for each.
import json, os, glob
C = json.load(open('/verif/tools/caught.json')) if os.path.exists('/verif/tools/caught.json') else {}
print('| id | property | what it breaks | needs | caught by |')
print('| --- | --- | --- | --- | --- |')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i = f.split('/')[-2]
    m = json.load(open(f))
    c = C.get(i, m['property'])
    print(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {c} |")
