import json,sys,glob
f=sys.argv[1]
d=json.load(open(f))
print(d['violation'])
for p in d['scenario']['procs']:
    print('--proc'); 
    for l in p: print('  ',l[:300])
for t in d['trace']: print('--'); print(*t[-int(sys.argv[2]) if len(sys.argv)>2 else -40:],sep='\n')
for e in d['stderr']: print('ERR',e[-1500:])
