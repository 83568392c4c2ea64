#!/usr/bin/env python3
"""Writes DESIGN.md from design.md, design_props.json, design_tail.md, the harness comments and the evidence files."""
import json,os,re,glob,sys
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ev=sys.argv[1] if len(sys.argv)>1 else root+'/evidence'
props=[json.loads(l) for l in open(root+'/properties.jsonl') if l.strip()]
text=json.load(open(root+'/tools/design_props.json'))
costs=json.load(open(root+'/tools/design_costs.json')) if os.path.exists(root+'/tools/design_costs.json') else {}
def short(b):
    b=re.sub(r'choice of (\d+)',r'\1 of',b)
    b=re.sub(r'string of (\d+)\.\.(\d+) bytes, any byte',r'\1–\2 bytes',b)
    b=re.sub(r'string of (\d+)\.\.(\d+) bytes of (".*")',r'\1–\2 of \3',b)
    return b
def bounds(bs):
    g={}
    for n,v in bs.items():
        v=[short(x) for x in v]
        m=[int(x.split()[0]) for x in v if re.fullmatch(r'\d+ of',x)]
        if len(m)==len(v) and len(v)>1: v=['up to %d of'%max(m)]
        g.setdefault(' / '.join(v[:3])+(' …' if len(v)>3 else ''),[]).append(n)
    out=[]
    for v,ns in g.items():
        if len(ns)>6: ns=ns[:5]+['… (%d in all)'%len(ns)]
        out.append('%s: %s'%(', '.join(ns),v))
    return '; '.join(out)
out=open(root+'/tools/design.md').read()
for p in props:
    i=p['id']; f='%s/harness/h/%s.go'%(root,i.lower())
    src=open(f).read()
    src+='\n'+'\n'.join(m.group(0)+'}' for m in re.finditer(r'((?:^//.*\n)+)^func %s_\w+\(\) *\{'%i,open(root+'/harness/h/many.go').read(),re.M))+'\n'
    doc={}
    for m in re.finditer(r'((?:^//.*\n)+)^func (C\d\d_\w+)\(\) *\{',src,re.M):
        doc[m.group(2)]=re.sub(r'\s+',' ',m.group(1).replace('//',' ')).strip().replace(m.group(2)+': ','')
    out+='### %s %s\n\n'%(i,p['title'])
    body,lim=text.get(i,('',''))
    out+=body.strip()+'\n'
    if lim and lim!='-': out+='\nOutside: '+lim.strip()+'\n'
    e='%s/%s.json'%(ev,i)
    if os.path.exists(e):
        d=json.load(open(e)); c=d['coverage']
        if d['tier']=='quick':
            costs[i]={'wall':round(d['wall_s']),'paths':c['paths'],'asserts':c['assertions_decided'],'queries':c['solver_queries'],
              'confirmed':c.get('excluded_branches_confirmed_by_solver',0),'solver':round(c['solver_s'],1),'fns':len(c['functions_encoded']),
              'bounds':{h['harness']:h.get('bounds') or {} for h in c['harnesses']}}
    c=costs.get(i)
    if c: out+='\nCost (quick): %(wall)d s, %(paths)d paths, %(asserts)d assertions, %(queries)d queries and %(confirmed)d excluded branches confirmed in batches, %(solver)s s of solver time, %(fns)d functions encoded.\n'%c
    out+='\n'
    for h in sorted(doc,key=lambda h: src.index('func '+h+'(')):
        out+='* `%s`: %s'%(h,doc[h])
        if c and c['bounds'].get(h): out+=' Inputs: '+bounds(c['bounds'][h])+'.'
        out+='\n'
    out+='\n'
out+=open(root+'/tools/design_tail.md').read()
seeds=[]
for m in sorted(glob.glob(root+'/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.append('| %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),d['property'],d['what_it_breaks'].replace('|','\\|').replace('\n',' '),d['needs'].replace('|','\\|').replace('\n',' ')))
out=out.replace('@@SEEDS@@','\n'.join(seeds))
k=[l.strip() for l in open(root+'/KNOWN_FINDINGS.txt') if l.startswith('fixed:')]
out=out.replace('@@FIXES@@','\n'.join('* '+l.replace('fixed: property=','') for l in k))
open(root+'/DESIGN.md','w').write(out)
json.dump(costs,open(root+'/tools/design_costs.json','w'))
print(len(out))
