#!/usr/bin/env python3
"""Rewrites the generated sections of DESIGN.md: the harnesses with their bounds, and the planted bugs."""
import re, glob, json, os
root='/verif'
doc=open(root+'/DESIGN.md').read()
titles={}
for l in open(root+'/properties.jsonl'):
    p=json.loads(l); titles[p['id']]=p['title']
hs={}
for f in sorted(glob.glob(root+'/harness/*/*.go')):
    pk=f.split('/')[-2]
    if pk in('sym','hx'): continue
    for m in re.finditer(r'((?:^//.*\n)+)^func (\w+)\(\)', open(f).read(), re.M):
        opt=re.search(r'^//sym:(.*)$', m.group(1), re.M)
        if not opt: continue
        o=dict(x.split('=',1) for x in opt.group(1).split() if '=' in x)
        text=' '.join(l[2:].strip() for l in m.group(1).splitlines() if not l.startswith('//sym:')).strip()
        text=re.sub(r'^\w+: ','',text)
        extra=[]
        if o.get('mode')=='fp': extra.append('bit-exact floating point')
        if o.get('race')=='1': extra.append('data races checked')
        if 'preempt' in o and o['preempt']!='0': extra.append('≤%s preemptions'%o['preempt'])
        if o.get('tiers'): extra.append(o['tiers']+' only')
        for p in o['prop'].split(','):
            hs.setdefault(p,[]).append((pk,m.group(2),text+(' ['+'; '.join(extra)+']' if extra else '')))
out=[]
for p in sorted(hs):
    out.append(f'\n#### {p} {titles[p]}\n')
    for pk,n,t in sorted(hs[p]): out.append(f'- `{pk}.{n}` — {t}')
def splice(doc,tag,text):
    a=f'<!-- {tag} -->'; b=f'<!-- /{tag} -->'
    i=doc.index(a)+len(a); j=doc.index(b)
    return doc[:i]+'\n'+text+'\n'+doc[j:]
doc=splice(doc,'harnesses','\n'.join(out))
rows=['| bug | property | what it breaks | what it needs |','|---|---|---|---|']
for d in sorted(glob.glob(root+'/seeded/*/meta.json')):
    m=json.load(open(d)); rows.append(f"| {d.split('/')[-2]} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
doc=splice(doc,'seeded','\n'.join(rows))
fx=[l.strip() for l in open(root+'/KNOWN_FINDINGS') if l.startswith(('fixed:','known:'))]
doc=splice(doc,'findings','\n'.join('- '+l for l in fx))
open(root+'/DESIGN.md','w').write(doc)
