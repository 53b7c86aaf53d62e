import sys,json
for l in sys.stdin:
    l=l.strip()
    if not l.startswith('{'):
        print(l[:300]); continue
    try: d=json.loads(l)
    except Exception as e: print("BAD",e,l[:200]); continue
    if 'crashed' in d: print('== ',d['entry'],'CRASHED',d['crashed']); continue
    bad=[k for k in d['checks'] if d['proven'].get(k,0)!=d['checks'][k]]
    print(f"== {d['entry']} ret={d['returned']} {d['seconds']}s nodes={d['nodes']} checks={sum(d['checks'].values())} proven={sum(d['proven'].values())} disch={d['discharged']} unm={d['unmodelled']} notes={d['notes'][:3]}")
    for k,v in d['loop_report'].items():
        if v!='terminates': print("   LOOP",k[:120],v)
    for k,v in d['reached'].items():
        if v!=True and v!='true': print("   UNREACHED",k)
    for f in d['findings']:
        print("  ",f['verdict'],f['kind'],f['name'],f['file'].replace('/repo/',''),f['line'],f['func'][:80],'|',f['detail'][:260])
