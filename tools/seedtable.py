import json,glob
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json')); rows.append('| %s | %s | %s |'%(d.split('/')[-2],m['property'],m['needs'].replace('|','/')[:140]))
t='| planted bug | caught by | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n'
s=open('/verif/DESIGN.md').read()
a=s.index('\n## 5.'); b=s.find('| planted bug'); 
s=(s[:b] if 0<b<a else s[:a]+'\n')+t+s[a:]
open('/verif/DESIGN.md','w').write(s)
