#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json,os,sys
H=os.path.dirname(os.path.abspath(__file__)); sys.dont_write_bytecode=True; sys.path.insert(0,H)
from checks import CHECKS,NOT_APPLICABLE
M={'version':1,'setup_cmd':'python3 -c "import compileall"',
 'hooks':{'guard':'CPSZ_MC_CAPACITY','enable':'the checks compile every file of /repo/src themselves (mc/build.py); the build "small" adds -DCPSZ_MC_CAPACITY=128, which sets the number of quantization intervals; the build "plain" leaves it out','source_commits':['ddf843e','5977393']},
 'checks':[],'not_applicable':NOT_APPLICABLE,
 'notes':'See DESIGN.md. Findings: known_findings.txt.'}
for l in open(os.path.join(H,'properties.jsonl')):
    p=json.loads(l); c=CHECKS.get(p['id'])
    if not c: continue
    M['checks'].append({'property':p['id'],'quick_cmd':'python3 run_check.py %s quick'%p['id'],'thorough_cmd':'python3 run_check.py %s thorough'%p['id'],'technique':c.get('technique','bounded exhaustive enumeration of executions of the real code, independent oracle'),'level':c['level'],'level_note':c['note'] if 'note' in c else 'Every execution within the stated bounds is run on the real code and judged by an oracle written from the definition; inputs outside the enumerated alphabets, shapes and bounds are not covered.'+(' Assumes: '+'; '.join(c['assumptions'])+'.' if c.get('assumptions') else '')})
json.dump(M,open(os.path.join(H,'MANIFEST.json'),'w'),indent=1)
