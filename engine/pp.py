"""Pretty printer of dumped THIR (debugging aid): pp.py dump.json key-substring"""
import json,sys
def load(p): return json.load(open(p))
class PP:
    def __init__(s,d): s.d=d
    def ty(s,i):
        t=s.d['types'][i]; k=t['k']
        if k in('int','uint','float','param'): return t['name']
        if k=='adt': return t['path'].split('::')[-1]+('<'+','.join(s.ty(a) for a in t['args'])+'>' if t['args'] else '')
        if k=='ref': return '&'+('mut ' if t['mut'] else '')+s.ty(t['t'])
        if k=='slice': return '['+s.ty(t['t'])+']'
        if k=='tuple': return '('+','.join(s.ty(a) for a in t['ts'])+')'
        if k=='fn': return 'fn '+s.d['defs'][t['def']]['key']
        if k=='closure': return 'closure '+s.d['defs'][t['def']]['key']
        return t.get('s',k)
    def e(s,x,ind=0):
        if x is None: return '~'
        k=x['k']; p='  '*ind
        f=s.e
        if k=='scope': return 's%s:'%x['scope']+f(x['e'],ind)
        if k=='block':
            o='{ //%s %s\n'%(x['scope'],'tgt' if x['target'] else '')
            for st in x['stmts']:
                if st['k']=='expr': o+=p+'  '+f(st['e'],ind+1)+';\n'
                else: o+=p+'  let '+s.pat(st['p'])+' = '+f(st['e'],ind+1)+((' else '+f(st['else'],ind+1)) if st['else'] else '')+';\n'
            if x['e']: o+=p+'  '+f(x['e'],ind+1)+'\n'
            return o+p+'}'
        if k=='if': return 'if '+f(x['c'],ind)+' then '+f(x['t'],ind)+' else '+f(x['f'],ind)
        if k=='call':
            g=x['f']
            while g['k']=='scope': g=g['e']
            if g['k']=='zst':
                t=s.d['types'][g['ty']]
                n='?' if t['k']!='fn' else s.d['defs'][t['def']]['key']+('=>'+s.d['defs'][t['rdef']]['key'] if 'rdef' in t else '')+'<'+','.join(s.ty(a) for a in t['args'])+'>'
            else: n='('+f(g,ind)+')'
            return n+'('+', '.join(f(a,ind) for a in x['a'])+')'
        if k=='var': return 'v'+x['v']
        if k=='upvar': return 'up'+x['v']
        if k in('bin','logic'): return '('+f(x['l'],ind)+' '+x['op']+' '+f(x['r'],ind)+')'
        if k in('assignop',): return f(x['l'],ind)+' '+x['op']+'= '+f(x['r'],ind)
        if k=='assign': return f(x['l'],ind)+' := '+f(x['r'],ind)
        if k=='match':
            o='match[%s] '%x['src']+f(x['e'],ind)+' {\n'
            for a in x['arms']: o+=p+'  '+s.pat(a['p'])+((' if '+f(a['g'],ind)) if a['g'] else '')+' => '+f(a['e'],ind+1)+'\n'
            return o+p+'}'
        if k=='letcond': return 'let '+s.pat(x['p'])+' = '+f(x['e'],ind)
        if k=='lit': return ('-' if x['neg'] else '')+repr(x['v'])
        if k=='field': return f(x['e'],ind)+'.%d'%x['i']+('@%d'%x['v'] if x['v'] else '')
        if k=='borrow': return '&['+x['b'][:6]+']'+f(x['e'],ind)
        if k=='deref': return '*'+f(x['e'],ind)
        if k in('break','continue'): return k+' s'+x['label']+' '+(f(x.get('e'),ind) if x.get('e') else '')
        if k in('tuple','array'): return k+'('+', '.join(f(a,ind) for a in x['es'])+')'
        if k=='adt': return x['path']+'::'+x['vn']+'{'+', '.join('%d:%s'%(i,f(a,ind)) for i,a in x['fs'])+'}'+((' base '+f(x['base'],ind)) if x['base'] else '')
        if k=='closure': return 'closure '+s.d['defs'][x['def']]['key']+'['+', '.join(f(a,ind) for a in x['up'])+']'+json.dumps(x['caps'])
        if k in('cast','coerce','never','un','loop','return','index','rawborrow','repeat'):
            return k+'.'+str(x.get('op',x.get('c','')))+'('+f(x['e'],ind)+((', '+f(x['i'],ind)) if k=='index' else '')+(':'+s.ty(x['ty']) if k=='cast' else '')+')'
        if k in('const','static','zst'): return k+' '+(s.d['defs'][x['def']]['key'] if 'def' in x else s.ty(x['ty']))
        return json.dumps(x)[:200]
    def pat(s,p):
        k=p['k']
        if k=='bind': return ('' if p['by']=='val' else p['by']+' ')+p['n']+':v'+p['v']+(('@'+s.pat(p['sub'])) if p.get('sub') else '')
        if k=='variant': return p['vn']+'('+', '.join('%d:%s'%(i,s.pat(q)) for i,q in p['fs'])+')'
        if k=='leaf': return '('+', '.join('%d:%s'%(i,s.pat(q)) for i,q in p['fs'])+')'
        if k=='deref': return '&'+s.pat(p['sub'])
        if k=='or': return '|'.join(map(s.pat,p['ps']))
        return k+str(p.get('v',''))
if __name__=='__main__':
    d=load(sys.argv[1]); P=PP(d)
    for b in d['bodies']:
        key=d['defs'][b['def']]['key']
        if sys.argv[2] in key:
            print('==',key,b['kind'],b['generics'],[ (P.pat(p['pat']) if p['pat'] else '_')+':'+P.ty(p['ty']) for p in b['params']])
            print(P.e(b['value']))
