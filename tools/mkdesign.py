import json,os,re
R='/verif/'
props={}
for l in open(R+'properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
notes=json.load(open(R+'tools/notes.json'))
head=open('/verif/tools/design/head.md').read(); tail=open('/verif/tools/design/tail.md').read()
ns={}; exec(open('/verif/tools/design/per.py').read(),ns); per=ns['d']
o=[head]
o.append('## 5. Per property: what is specified, and how it is decided\n')
for i in sorted(props):
    if i in notes['na']:
        o.append('### %s %s\n\n*Not applicable.* %s\n'%(i,props[i]['title'],notes['na'][i])); continue
    o.append('### %s %s\n\n%s\n\n%s\n'%(i,props[i]['title'],per[i],'*Level:* '+notes['level'][i]))
o.append(tail)
o.append('\n| planted bug | property | what it breaks |\n|---|---|---|\n')
for s in sorted(os.listdir(R+'seeded')):
    m=json.load(open(R+'seeded/'+s+'/meta.json')); o.append('| %s | %s | %s |\n'%(s,m['property'],m['what_it_breaks'].replace('|','/').replace('\n',' ')))
open(R+'DESIGN.md','w').write('\n'.join(o[:-(len(os.listdir(R+'seeded'))+1)])+''.join(o[-(len(os.listdir(R+'seeded'))+1):]))
