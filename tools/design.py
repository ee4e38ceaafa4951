import json,os,subprocess
k=json.load(open('/verif/known_findings.json'))['findings']
t=open('/verif/tools/DESIGN.in.md').read()
miss=set(open('/verif/tools/missed.txt').read().split())
S='/verif/seeded'
esc=lambda x:str(x).replace('|','\\|').replace('\n','\\n')
fx='\n'.join('| %s | %s | %s |'%(f['property'],f.get('commit','')[:7],esc(f['what'])) for f in k if f['status']=='fixed')+'\n'
why={}
kn='\n'.join('| %s | %s | %s |'%(f['property'],esc(f['what']),esc(f.get('why',''))) for f in k if f['status']=='known')+'\n'
ids=sorted(os.listdir(S)); rows=[]
for i in ids:
    m=json.load(open(S+'/'+i+'/meta.json'))
    rows.append('| %s%s | %s | %s |'%(i,' +' if i in miss else '',esc(m['needs']),m['property']))
t=t.replace('\nFIXED\n','\n'+fx).replace('\nKNOWN\n','\n'+kn).replace('SEEDS',str(len(ids))).replace('\nTABLE','\n'+'\n'.join(rows)+'\n')
open('/verif/DESIGN.md','w').write(t.rstrip()+'\n')
