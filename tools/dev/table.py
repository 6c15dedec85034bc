import json,os
p='/verif/DESIGN.md'; t=open(p).read()
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s |'%(d,m['property'],m['needs'].replace('|','/')))
i=t.index('| change | property |')
t=t[:i]+'| change | property | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n'
open(p,'w').write(t)
