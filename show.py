import json,sys
d=json.load(open(sys.argv[1]))
print({k:v for k,v in d.items() if k!='entries'})
for e in d['entries']:
  print({k:v for k,v in e.items() if k not in('functions','samples','errors')})
  for x in e['errors'][:int(sys.argv[2]) if len(sys.argv)>2 else 12]:
    print('ERR',x['kind'],'|',x['msg'],'|',x['input'],bytes.fromhex(x['input']),x['count']);print('      '+'\n      '.join(x['trace'][:10]))
  for s in e['samples'][:6]: print('  sample',s['input'],bytes.fromhex(s['out'])[:80],s['steps'],s['panicked'])
  print(len(e['functions']),'functions')
