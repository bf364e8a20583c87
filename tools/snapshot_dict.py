#!/usr/bin/env python3
"""One-off: writes dict/attributes.json and dict/constants.json, the committed snapshot of the supported RFC
dictionaries that the specification uses as its dictionary.  It is made from /repo/dicts (the declarations); the Rust
identifiers are computed from the dictionary names and checked to exist in the modules at snapshot time."""
import re,os,json,sys
D='/repo/dicts'
def kind(typ,opts):
    o=set(opts.split(',')) if opts else set()
    m=re.match(r'octets\[(\d+)\]$',typ)
    if m: return 'fixed',int(m.group(1))
    if typ=='ifid': return 'fixed',8
    if typ=='string':
        if 'encrypt=1' in o: return 'user_password',0
        if 'encrypt=2' in o: return 'tunnel_password',0
        return ('tagged_string' if 'has_tag' in o else 'string'),0
    if typ=='integer': return ('tagged_integer' if 'has_tag' in o else 'integer'),0
    if typ=='octets': return ('concat' if 'concat' in o else 'octets'),0
    return typ,0
def ident(s):
    s=re.sub(r'[^A-Za-z0-9]+','_',s)
    return s.upper()
attrs=[];consts=[]
for f in sorted(os.listdir(D)):
    mod=f.split('.')[1]
    src=open(f'/repo/radius/src/core/{mod}.rs').read()
    known=dict(re.findall(r'^pub const (\w+):\s*[\w:]+\s*=\s*(\d+);',src,re.M))
    norm={}
    for k in known: norm.setdefault(k.replace('_',''),[]).append(k)
    for line in open(f'{D}/{f}'):
        line=line.rstrip('\n')
        if not line or line.startswith('#'): continue
        it=line.split()
        if it[0]=='ATTRIBUTE':
            k,n=kind(it[3],it[4] if len(it)>4 and not it[4].startswith('#') else '')
            want=ident(it[1])+'_TYPE'
            cand=norm.get(want.replace('_',''),[])
            if want in cand: cand=[want]
            if len(cand)!=1: print('??',mod,want,cand)
            tc=cand[0]; fn=tc[:-5].lower()
            attrs.append(dict(name=it[1],mod=mod,fn=fn,tconst=tc,num=int(it[2]),kind=k,len=n))
        elif it[0]=='VALUE':
            want=ident(it[1])+'_'+ident(it[2])
            cand=norm.get(want.replace('_',''),[])
            if len(cand)!=1: print('??',mod,want,cand)
            else: consts.append(dict(mod=mod,const=cand[0],attr=it[1],value=it[2],hex='%08x'%int(it[3].split('#')[0])))
        else: print('??',line)
os.makedirs('/verif/dict',exist_ok=True)
json.dump(attrs,open('/verif/dict/attributes.json','w'),indent=0)
json.dump(consts,open('/verif/dict/constants.json','w'),indent=0)
print(len(attrs),len(consts))
