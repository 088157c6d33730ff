import json,sys
def ty(t):
    k=t['k']
    if k=='prim' or k=='param': return t['name']
    if k=='adt': return t['name']+('<'+','.join(map(ty,t['args']))+'>' if t['args'] else '')
    if k=='ref': return '&'+('mut ' if t['mut'] else '')+ty(t['t'])
    if k=='tuple': return '('+','.join(map(ty,t['ts']))+')'
    if k=='fndef': return f"fn {t['recv']}::{t['name']}<{','.join(map(ty,t['args']))}>"
    if k=='closure': return '{'+t['key']+'<'+','.join(map(ty,t['args']))+'>}'
    if k=='alias': return f"<{','.join(map(ty,t['args']))} as {t['trait']}>::{t['name']}"
    if k=='constval': return str(t['v'])
    if k=='constparam': return t['name']
    if k=='array': return f"[{ty(t['t'])};{ty(t['n'])}]"
    if k=='dyn': return 'dyn '+'+'.join(x['name'] for x in t['traits'])
    if k=='ptr': return '*'+ty(t['t'])
    if k=='slice': return '['+ty(t['t'])+']'
    return str(t)
def pl(p):
    s=f"_{p['l']}"
    for e in p['p']:
        if e[0]=='deref': s=f"(*{s})"
        elif e[0]=='field': s+=f".{e[1]}"
        elif e[0]=='index': s+=f"[_{e[1]}]"
        elif e[0]=='downcast': s+=f"@{e[2]}"
        else: s+=str(e)
    return s
def op(o):
    if o['op'] in('copy','move'): return pl(o['place'])
    if o['op']=='const':
        if o['ck']=='uneval': return 'const '+str(o.get('recv'))+'::'+o['name']+(f"#p{o['promoted']}" if o.get('promoted') is not None else '')
        return f"const({o.get('bits',o.get('str',o.get('c','')))}:{ty(o['ty'])})"
    return str(o)
def rv(r):
    k=r['r']
    if k=='use': return op(r['o'])
    if k=='ref': return '&'+('mut ' if r['mut'] else '')+pl(r['place'])
    if k=='bin': return f"{r['b']}({op(r['x'])},{op(r['y'])})"
    if k=='un': return f"{r['u']}({op(r['o'])})"
    if k=='discr': return f"discr({pl(r['place'])})"
    if k=='cast': return f"{op(r['o'])} as {r['kind']} {ty(r['ty'])}"
    if k=='agg': return f"agg {r['ak']} {r.get('name','')}::{r.get('vname','')}{r.get('key','')}({', '.join(map(op,r['ops']))})"
    if k=='rawptr': return '&raw '+pl(r['place'])
    return str(r)
def body(b):
    out=[]
    m=b['mir']
    for i,l in enumerate(m['locals']): out.append(f"  let _{i}: {ty(l['ty'])} // {l['name']}")
    for i,bl in enumerate(m['blocks']):
        if bl['cleanup']: continue
        out.append(f" bb{i}:")
        for s in bl['st']:
            out.append('   '+(f"{pl(s['place'])} = {rv(s['rv'])}" if s['s']=='assign' else str(s)))
        t=bl['term']
        if t['t']=='call': out.append(f"   {pl(t['dest'])} = {op(t['f'])}({', '.join(map(op,t['args']))}) -> {t['to']}")
        elif t['t']=='switch': out.append(f"   switch {op(t['o'])} {t['cases']} else {t['else']}")
        else: out.append('   '+str({k:(op(v) if k=='o' else v) for k,v in t.items() if k!='sp'}))
    return '\n'.join(out)
if __name__=='__main__':
    m=json.load(open('/tmp/m.json'))
    for k,b in m['bodies'].items():
        if any(a in k for a in sys.argv[1:]): print(k, b['generics']); print(body(b)); print('promoted', b.get('promoted') and len(b['promoted']))
