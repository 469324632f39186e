import sys, json
from . import load as L
def sh(P,e):
    if e is None: return '∅'
    if isinstance(e,list): return ', '.join(sh(P,x) for x in e)
    k=e['k']
    r=lambda n: sh(P,e.get(n))
    if k in('int','float','char'): return str(e['v'])
    if k=='bool': return str(e['v'])
    if k=='str': return repr(e.get('v'))
    if k=='var': return e['name']
    if k=='this': return 'this'
    if k=='member': return r('base')+'.'+e['name']
    if k=='call':
        f=e.get('f'); n=f['q'] if f else '<%s>'%r('fe')
        o=e.get('obj')
        return (sh(P,o)+'.' if o else '')+n+'('+r('args')+')'
    if k=='bin': return '(%s %s %s)'%(r('lhs'),e['op'],r('rhs'))
    if k=='assign': return '%s %s= %s'%(r('lhs'),e['op'],r('rhs'))
    if k=='un': return '(%s%s%s)'%(e['op'],'post ' if e.get('post') else '',r('e'))
    if k=='cast': return 'cast<%s>(%s)'%(e['ck'],r('e'))
    if k=='ctor': return 'ctor %s(%s)'%(P.type(e['t'])['s'],r('args'))
    if k=='defarg': return 'def:'+r('e')
    if k=='lambda': return 'lambda{generic=%s specs=%d}'%(e.get('generic'),len(e.get('specs',[])))
    return k+'{'+', '.join(sh(P,v) for n,v in e.items() if isinstance(v,(dict,list)) and n not in('f',))+'}'
def st(P,s,ind=0):
    p=' '*ind
    if s is None: return
    k=s['k']
    if k=='seq':
        for x in s['b']: st(P,x,ind)
    elif k=='decl':
        for d in s['d']:
            print(p+'var',d['name'],[b['name'] for b in d.get('bindings',[])],P.type(d['t'])['s'][:60],'=',sh(P,d.get('init')))
    elif k=='expr': print(p+sh(P,s['e']))
    elif k=='if':
        print(p+'if',sh(P,s['c'])); st(P,s['then'],ind+2)
        if s.get('else'): print(p+'else'); st(P,s['else'],ind+2)
    elif k=='foreach': print(p+'foreach',s['var']['name'],[b['name'] for b in s['var'].get('bindings',[])],'in',sh(P,s['range'])); st(P,s['body'],ind+2)
    elif k=='for':
        print(p+'for'); st(P,s.get('init'),ind+4); print(p+'   ;',sh(P,s.get('c')),';',sh(P,s.get('inc'))); st(P,s['body'],ind+2)
    elif k in('while','do'): print(p+k,sh(P,s['c'])); st(P,s['body'],ind+2)
    elif k=='return': print(p+'return',sh(P,s.get('e')))
    elif k in('switch',): print(p+'switch',sh(P,s['c'])); st(P,s['body'],ind+2)
    elif k in('case','default'): print(p+k,sh(P,s.get('v'))); st(P,s['sub'],ind+2)
    else: print(p+k)
if __name__=='__main__':
    P=L.load()
    for q in sys.argv[1:]:
        fs=P.byq.get(q,[])
        print(q,len(fs))
        for f in fs[:1]:
            print(f['key'],f['file'],f['line']); st(P,f.get('body'),2)
