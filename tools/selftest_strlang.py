import sys, re, random; sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))))
from pyvc.strlang import *
# differential test: instantiate atoms randomly, compare spans with CPython
def gen(node, rng):
    k=node[0]
    if k=="chars":
        cs=[chr(i) for i in range(128) if node[1]>>i&1]; return rng.choice(cs)
    if k=="seq": return "".join(gen(x,rng) for x in node[1])
    if k=="alt": return gen(rng.choice(node[1]),rng)
    if k=="rep": return "".join(gen(node[1],rng) for _ in range(rng.randint(node[2], node[3] if node[3] is not None else node[2]+3)))
pats=[r'^(?P<prefix>[a-zA-Z\-\s]*)(?P<port_subinterface_channel>[\d\:\.^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$',
 r'^(?P<prefix>[a-zA-Z\-\s]*)(?P<slot>[\d\:\.\/^\-^a-z^A-Z^\s]+)(?P<interface_class>\s+[a-zA-Z\-]+){0,1}$', r'\.(?P<s>\d+)', r'^\D*(?P<port>\d+)', r'^eq\s', r'^\S+$', r'(a|b+)(c)?(\d+?)x?', r'(\s+[a-zA-Z\-]+)$', r'^(..)(.+)', r'^(?:\s*(x)*(.*?)(\d)*;*|(q)z)\s*$', r'^(\d+)([^\:^\.])?(\d+)?(/)?(\d+)?']
atoms=[r'[a-zA-Z]+', r'\d+', r'0|[1-9]\d*', r'[a-z\d]+', r'[abc]', r'\S+']
lits=["/",".",":"," ","ab","Ethernet","eq ","x","1"]
rng=random.Random(int(sys.argv[1]) if len(sys.argv)>1 else 1); st={}
for it in range(1500):
    ps=[]; 
    for _ in range(rng.randint(1,6)):
        if rng.random()<.5:
            for c in rng.choice(lits): ps.append(Piece(lit(c),None,c))
        else: ps.append(Piece(lang(rng.choice(atoms)),None))
    pat=rng.choice(pats); mode=rng.choice(["search","match","fullmatch"])
    M=Matcher(pat,ps,mode)
    d=M.decide(); m=None; unk=None
    if d:
        try: m=M.match()
        except Unknown as e: unk=str(e)
    st[(d,unk)]=st.get((d,unk),0)+1
    for _ in range(6):
        parts=[p.text if p.text else gen(p.node,rng) for p in ps]; s="".join(parts)
        r=getattr(re,mode)(pat,s)
        assert d is None or bool(r)==d,(pat,s,d)
        if m:
            off=[0]
            for x in parts: off.append(off[-1]+len(x))
            for g,sp in m.spans.items():
                exp=r.span(g); got=(-1,-1) if sp is None else (off[sp[0]],off[sp[1]])
                assert exp==got,(pat,s,parts,g,exp,got)
print(st)
