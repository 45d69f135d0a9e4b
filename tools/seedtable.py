#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json."""
import json,glob,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=root+'/DESIGN.md'; t=open(p).read()
head=t[:t.index('## Planted changes')]
missed={'r04-reset-unnoticed','r05-listen-leak','u06-inherited-session','u04-stale-partial-frame','m06-queue-stuck'}
o=head+'''## Planted changes

Each change in seeded/ compiles, passes the repository's tests, and has a demonstration
(`tools/seed.py -c ID` verifies both and runs the check of its property). "After strengthening"
marks changes the check missed when they were first written; two more of that kind (R01: a
component replaced on registration, a subscription id taken too early) were found with changes
not kept here.

| Change | Caught by | Needs | |
|---|---|---|---|
'''
for f in sorted(glob.glob(root+'/seeded/*/meta.json')):
    i=f.split('/')[-2]; m=json.load(open(f))
    n=re.sub(r'\s+',' ',m['needs']).replace('|','/')
    o+='| %s | %s | %s | %s |\n'%(i,m['property'],n,'after strengthening' if i in missed else '')
open(p,'w').write(o)
