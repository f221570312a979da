#!/usr/bin/env python3
import json,sys
o,src=sys.argv[1:3]
d=json.load(open(o))
hit={v['scenario'] for v in d['violations'] if v['msg']=='hit'}
src={l.split('"')[1]:l for l in open(src) if l.strip()}
bad=0
for s in d['scenarios']:
    if s['name'] not in hit:
        print("EXHAUSTIVE-BUT-MISSED" if s['exhaustive'] else "not exhaustive", {k:v for k,v in s.items() if v and k in('drops','pending','unknown','diverged','mismatches','paths','concretized','solve_cut')}, src[s['name']].strip()[:230])
        bad+=s['exhaustive']
print(len(hit),'found of',len(d['scenarios']),d['dropped'])
print([v for v in d['violations'] if v['msg']!='hit'][:10])
sys.exit(1 if bad else 0)
