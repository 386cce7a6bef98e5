import json,sys
def main():
    d=json.load(open(sys.argv[1])); pat=sys.argv[2] if len(sys.argv)>2 else None
    T=d['types']
    ts=lambda i:T[i]['s']
    if not pat:
        for e in d['entries']: print(e['key'],'|',e.get('trait'),e['pub'])
        print(len(d['fns']))
        for k in d['fns']: print('  ',k)
        return
    def pl(p): 
        s='_%d'%p[0]
        for e in p[1:]:
            s+= '.*' if e=='*' else ('=' if e=='=' else '.%s'%e[1] if e[0]=='f' else '[%s]'%(e[1:],) if e[0] in 'ics' else '@%d'%e[1])
        return s
    def op(o):
        if 'c' in o: return pl(o['c'])
        if 'm' in o: return 'mv '+pl(o['m'])
        return json.dumps(o.get('k',o))[:200]
    def rv(r):
        return ' '.join(str(op(x) if isinstance(x,dict) and ('c' in x or 'm' in x or 'k' in x) else pl(x) if isinstance(x,list) and x and isinstance(x[0],int) else ([op(y) for y in x] if isinstance(x,list) else (ts(x) if False else x))) for x in r)
    for k,f in d['fns'].items():
        if pat in k:
            print('FN',k, 'NULL' if f is None else '')
            if f is None: continue
            f=f['body'] if 'body' in f else f
            print(' args',f['args'],'spread',f['spread'],f['file'],f['line'])
            for i,l in enumerate(f['locals']): print('  _%d: %s'%(i,ts(l)), [n for j,n in f['names'] if j==i])
            for i,b in enumerate(f['bb']):
                if b is None: continue
                print(' bb%d:'%i)
                for s in b[0]: print('    ',pl(s[0]),'=',rv(s[1])[:400])
                t=b[1]
                if t[0]=='call':
                    c=t[1]; print('    ',pl(t[3]),'= CALL',c.get('rp') or c.get('p'),c['k'],'key=',c.get('key'),[op(a) for a in t[2]],'->',t[4])
                else: print('    ',t)
main()
