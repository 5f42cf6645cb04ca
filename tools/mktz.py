"""Expands /usr/share/zoneinfo/tzdata.zi (compact form) to the long-hand format
that the extractor reads, spread over its nine files; written once to data/tzdata."""
import os, re
src=open('/usr/share/zoneinfo/tzdata.zi',encoding='utf-8').read().split('\n')
MON=['January','February','March','April','May','June','July','August','September','October','November','December']
DOW=['Monday','Tuesday','Wednesday','Thursday','Friday','Saturday','Sunday']
def mon(s):
    c=[m for m in MON if m.lower().startswith(s.lower())]; assert c,s
    return c[0][:3]
def dow(s):
    c=[m for m in DOW if m.lower().startswith(s.lower())]; assert c,s
    return c[0][:3]
def day(s):
    if s.isdigit(): return s
    m=re.match(r'(.*)([<>]=)(\d+)$',s)
    if m: return dow(m.group(1))+m.group(2)+m.group(3)
    assert s.startswith('l'),s
    t=s[4:] if s.startswith('last') else s[1:]
    return 'last'+dow(t)
def tm(s,suffix=False):
    sg=''
    if s.startswith('-') and len(s)>1: sg='-'; s=s[1:]
    if s=='-': s='0'
    x=''
    if suffix and s[-1] in 'wsugz': x=s[-1]; s=s[:-1]
    if ':' not in s: s=s+':00' if s!='0' or suffix else '0'
    return sg+s+x
files={}
REG={'Africa':'africa','Antarctica':'antarctica','Asia':'asia','Australia':'australasia','Pacific':'australasia','Etc':'etcetera','Europe':'europe','America':'northamerica'}
out={f:[] for f in ['africa','antarctica','asia','australasia','backward','etcetera','europe','northamerica','southamerica']}
era=lambda t: [tm(t[0]),tm(t[1]) if re.fullmatch(r'-?[0-9:]+',t[1]) else t[1],t[2]]+([t[3]] if len(t)>3 else [])+([mon(t[4])] if len(t)>4 else [])+([day(t[5])] if len(t)>5 else [])+([tm(t[6],True)] if len(t)>6 else [])
cur=None; zones={}
for l in src:
    if not l or l[0]=='#': continue
    t=l.split()
    if t[0]=='R':
        ty={'o':'only','ma':'max'}.get(t[3],t[3])
        sv=t[8]
        out['europe' if t[1][0]<'N' else 'northamerica'].append('\t'.join(['Rule',t[1],t[2],ty,'-',mon(t[5]),day(t[6]),tm(t[7],True),tm(sv),t[9]])); cur=None
    elif t[0]=='Z':
        f=REG.get(t[1].split('/')[0],'europe'); cur=f
        out[f].append('\t'.join(['Zone',t[1]]+era(t[2:])))
    elif t[0]=='L': out['backward'].append('Link\t%s\t%s'%(t[1],t[2])); cur=None
    else: out[cur].append('\t\t\t'+'\t'.join(era(t)))
for f,ls in out.items(): open('data/tzdata/'+f,'w').write('\n'.join(ls)+'\n')
print({f:len(l) for f,l in out.items()}, src[0])
