#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_src.md, then the tables of planted bugs and of repairs."""
import json,os,glob
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=[open(D+'/tools/design_src.md').read().rstrip(),'']
out.append('## 4. Planted bugs and the checks that catch them\n')
caught=json.load(open(D+'/tools/caught.json'))
out.append('| planted bug | property | needs | caught by (quick) |\n|---|---|---|---|')
for f in sorted(glob.glob(D+'/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    out.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i,'?')} |")
out.append('')
out.append(open(D+'/tools/design_log.md').read().rstrip())
out.append('\n## 6. Defects found and repaired\n\nEach is one `fix:` commit in /repo; the property\'s check reports it again if it returns.\n')
out.append('| property | commit | what failed |\n|---|---|---|')
for l in open(D+'/known_findings.jsonl'):
    k=json.loads(l)
    if k['status']=='fixed': out.append(f"| {k['property']} | {k['commit']} | {k['what'].replace('|','/')} |")
kn=[json.loads(l) for l in open(D+'/known_findings.jsonl')]
kn=[k for k in kn if k['status']=='known']
out.append('\nKnown findings (not repaired): '+('none.' if not kn else ''))
for k in kn: out.append(f"* {k['property']} {k['key']}: {k['what']}")
open(D+'/DESIGN.md','w').write('\n'.join(out)+'\n')
