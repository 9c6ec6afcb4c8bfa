# rewrites the list of planted bugs by property in DESIGN.md
import json,glob,collections,re,textwrap
a=collections.defaultdict(list)
for f in sorted(glob.glob('/verif/seeded/*/meta.json')): a[json.load(open(f))['property']].append(f.split('/')[-2])
n=sum(map(len,a.values()))
t=textwrap.fill('By property: '+'; '.join(k+' '+', '.join(a[k]) for k in sorted(a))+'.',96,break_on_hyphens=False,break_long_words=False)
p='/verif/DESIGN.md'; s=open(p).read()
s=re.sub(r'By property: .*?\.\n\n',lambda m:t+'\n\n',s,count=1,flags=re.S)
s=re.sub(r'`seeded/` holds \d+',f'`seeded/` holds {n}',s)
open(p,'w').write(s); print(n,sorted(a.keys())==[f'C{i:02d}' for i in range(1,35)])
