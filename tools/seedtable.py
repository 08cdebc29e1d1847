#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md from the outputs of seedcheck.sh (/tmp/w/sc.ID)."""
import glob,json,re,os
rows=['| planted bug | property | rules that report it | what it needs |','|----|----|----|----|']
for d in sorted(glob.glob('/verif/seeded/*')):
    i=os.path.basename(d); m=json.load(open(d+'/meta.json'))
    t=open('/tmp/w/sc.'+i).read()
    rules=sorted(set(re.findall(r'\d+ \[([A-Z]+)\]',t)))
    rows.append('| %s | %s | %s | %s |'%(i,m['property'],', '.join(rules) or '-',m['needs'].replace('|','/')))
p='/verif/DESIGN.md'; s=open(p).read()
new='<!-- seeds -->\n'+'\n'.join(rows)+'\n<!-- end seeds -->'
if 'SEEDTABLE' in s: s=s.replace('SEEDTABLE',new)
else: s=re.sub(r'<!-- seeds -->.*<!-- end seeds -->',lambda _:new,s,flags=re.S)
open(p,'w').write(s)
