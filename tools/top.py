import sys,json,collections,subprocess
c=collections.OrderedDict()
for l in sys.stdin:
    if l.startswith('SUM'): print(l[:1500])
    if not l.startswith('VIOL'): continue
    d=json.loads(l[5:]); 
    def sy(pc): 
        if not pc: return ''
        o=subprocess.run(['addr2line','-ie',sys.argv[1],hex(pc)],capture_output=True,text=True).stdout.split('\n')
        for x in o:
            if '/repo' in x or '/verif' in x: return x.split('/')[-1].split(' ')[0]
        return o[0]
    k=(d['kind'],sy(d['pcs'][0]),sy(d['pcs'][1])) if d['pcs'][0] else (d['kind'],d['msg'][:100])
    c.setdefault(k,[]).append(d)
for k,v in list(c.items())[:25]: print(len(v),k,'e.g. seed',v[0]['seed'],v[0]['msg'][:260],'|',v[0]['sample'][:300])
