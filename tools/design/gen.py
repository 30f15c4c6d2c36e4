import re,glob,json
src={}
for f in sorted(glob.glob('/verif/harness/checks/*.go')):
    s=open(f).read()
    for m in re.finditer(r'ID:\s+"(C\d\d)",\s*Space:\s*((?:"(?:[^"\\]|\\.)*"(?:\s*\+\s*)?)+),(.*?)Enum:',s,re.S):
        txt=''.join(re.findall(r'"((?:[^"\\]|\\.)*)"',m.group(2)))
        ass=[a for a in re.findall(r'"((?:[^"\\]|\\.)*)"',m.group(3))]
        src[m.group(1)]=(txt,ass,f.split('/')[-1])
P={}
for l in open('/verif/properties.jsonl'):
    p=json.loads(l);P[p['id']]=p
extra=json.load(open('/verif/tools/design/extra.json'))
out=[]
for i in sorted(P):
    txt,ass,f=src[i]
    p=P[i]; e=extra.get(i,{})
    out.append(f"### {i} — {p['title']}\n")
    out.append(f"*Explored* (`checks/{f}`): {txt}\n")
    out.append(f"*Oracle*: {e.get('oracle','the reference interpreter, step by step.')} *Cost*: {e['cost']}. *Beyond the tests*: {p['why_tests_cant']}.")
    if ass: out.append("*Assumed*: "+'; '.join(ass)+'.')
    if e.get('note'): out.append(e['note'])
    out.append('')
d=open('/verif/tools/design/head.md').read().replace('@@PROPS@@','\n'.join(out))
open('/verif/DESIGN.md','w').write(d)
# tables
missed={'namespace-call-outer':'phase "visibility" of C22','picol-negative-condition':'integer conditions in C28','resume-frame-result':'pipes in the C05 grammar'}
try: missed.update(json.load(open('/verif/tools/design/missed.json')))
except FileNotFoundError: pass
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    rows.append((m['property'],i,m['what_it_breaks'].rstrip('.'),m['needs'].rstrip('.')))
t="| property | change | breaks | needs |\n|---|---|---|---|\n"+''.join(f"| {p} | {i}{' *('+missed[i]+')*' if i in missed else ''} | {b} | {n} |\n" for p,i,b,n in sorted(rows))
d=open('/verif/DESIGN.md').read().replace('@@SEEDED@@',t)
try: mt=open('/verif/tools/design/mutation.md').read()
except FileNotFoundError: mt=''
d=d.replace('@@MUTATION@@',mt)
open('/verif/DESIGN.md','w').write(d)
