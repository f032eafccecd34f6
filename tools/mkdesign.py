import json,re,glob,subprocess
V='/verif'
P=[json.loads(l) for l in open(V+'/properties.jsonl')]
M=json.load(open(V+'/MANIFEST.json'))
seeds={}
for f in sorted(glob.glob(V+'/tools/seeds/*.py')):
    ns={}; exec(open(f).read(),ns); seeds.setdefault(ns['prop'],[]).append((f.split('/')[-1][:-3],ns['breaks'],ns['needs'],ns.get('also','')))
fixed={}
for l in open(V+'/known_findings.jsonl'):
    m=re.match(r'fixed: property=(C\d+) (\w+) (.*)',l)
    if m: fixed.setdefault(m[1],[]).append((m[2],m[3].replace('before it, this did not hold: ','')))
D=json.load(open(V+'/tools/design.json')) if 0 else {}
exec(open(V+'/tools/design_text.py').read(),globals())
out=[HEAD]
out.append('## 5. Property by property\n')
for p in P:
    i=p['id']; t=PER[i]
    out.append('### %s — %s\n'%(i,p['title']))
    out.append('*How*: %s\n'%t['how'])
    if t.get('bounds'): out.append('*Bounds*: %s\n'%t['bounds'])
    out.append('*Why a test cannot*: %s\n'%p['why_tests_cant'])
    if i in seeds: out.append('*Planted bugs it catches*: '+'; '.join('`%s` (%s)'%(s[0],s[1]) for s in seeds[i])+'.\n')
    if i in fixed: out.append('*Defects found here and repaired*: '+'; '.join('%s (`%s`)'%(b,a) for a,b in fixed[i])+'.\n')
out.append(TAIL)
open(V+'/DESIGN.md','w').write('\n'.join(out))
