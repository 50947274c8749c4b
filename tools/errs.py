import re,sys
out=open('/verif/.build/out.rs').read().split('\n')
v=open('/verif/.build/v.txt').read()
def where(ln):
    fn=None; im=None; mods=[]
    i=ln-1
    ind=None
    while i>=0:
        l=out[i]
        m=re.match(r'\s*(?:pub )?(?:open |closed |broadcast |const )*(?:proof |spec )?(?:axiom )?fn (\w+)',l)
        if fn is None and m: fn=m.group(1); ind=len(l)-len(l.lstrip())
        m=re.match(r'(\s*)(impl.*|(?:pub )?mod \w+|pub trait \w+)',l)
        if fn and m and len(m.group(1))<ind:
            ind=len(m.group(1)); mods.append(re.sub(r' \{.*','',m.group(2)))
        if ind==0 and fn: break
        i-=1
    return ' / '.join(reversed(mods))+' :: '+str(fn)
res={}
for blk in re.split(r'\n(?=error)',v):
    m=re.match(r'error: (.*)',blk)
    if not m or 'aborting' in m.group(1): continue
    # last location mentioned by numbered lines with exit / end
    locs=re.findall(r'out\.rs:(\d+):',blk)
    nums=re.findall(r'^\s*(\d+) \|',blk,re.M)
    if 'postcondition' in m.group(1) or 'recondition' in m.group(1):
        ln=int(nums[-1]) if 'postcondition' in m.group(1) and nums else int(locs[0])
    else: ln=int(locs[0]) if locs else 0
    txt=[l for l in blk.split('\n') if '^^^' in l or '___^' in l]
    res.setdefault(where(ln),[]).append((m.group(1),ln,blk))
for k in sorted(res):
    print(k, [ (e,l) for e,l,_ in res[k]])
