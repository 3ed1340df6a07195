import json,glob,collections
d=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    n=f.split('/')[3]
    if n not in ('delta-ictcp-small',): d[json.load(open(f))['property']].append(n)
out=["| check | planted changes it catches (`seeded/<id>`) |","|---|---|"]
for k in sorted(d): out.append("| %s | %s |"%(k,", ".join(d[k])))
s=open('/verif/DESIGN.md').read()
a,b="<!-- seeds -->","<!-- /seeds -->"
i,j=s.index(a)+len(a),s.index(b)
open('/verif/DESIGN.md','w').write(s[:i]+"\n"+"\n".join(out)+"\n"+s[j:])
