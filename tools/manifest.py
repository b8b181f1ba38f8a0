#!/usr/bin/env python3
# Writes MANIFEST.json from the table of claims below and properties.jsonl.
import json, os, re, subprocess
here = os.path.dirname(os.path.abspath(__file__)) + '/..'
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
src = ''.join(open(here + '/checker/' + f).read() for f in sorted(os.listdir(here + '/checker')) if f.startswith('rules_'))
claimed = set(re.findall(r'rules\["(C\d+)"\]', src))
AI = 'abstract interpretation of the SSA form of every entry point'
tech = json.load(open(here + '/tools/techniques.json'))
na = json.load(open(here + '/tools/not_applicable.json'))
checks, nas = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({'property': i, 'quick_cmd': f'bash run.sh {i} quick', 'thorough_cmd': f'bash run.sh {i} thorough',
                       'technique': tech[i][0], 'level': 'other', 'level_note': tech[i][1]})
    else:
        nas.append({'property': i, 'reason': na.get(i, 'the check for this property is not built yet')})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': nas,
     'notes': 'Every check is the static analyser in /verif/checker run on the current source of /repo in three build configurations (five when thorough). No hooks are needed in /repo. Repaired defects are listed in known_findings.txt.'}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
