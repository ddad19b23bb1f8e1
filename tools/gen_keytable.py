#!/usr/bin/env python3
"""Generates spec/KeyTable.tla from a TSV of (code, name, alternate name,
shifted name).  The TSV (spec/keys.tsv) is the specification's own key table:
it is committed, and is not derived from the code under test at check time."""
import sys,os
here=os.path.dirname(os.path.abspath(__file__))
rows=[l.rstrip('\n').split('\t') for l in open(here+'/../spec/keys.tsv')]
q=lambda s:'"'+s.replace('\\','\\\\').replace('"','\\"')+'"'
names=set()
for r in rows:
    for n in r[1:]:
        if n:
            assert n not in names,n
            names.add(n)
out=["---------------------------- MODULE KeyTable ----------------------------",
"(* GENERATED by tools/gen_keytable.py from spec/keys.tsv, do not edit.        *)",
"(* Key codes, their names, alternate names and shifted (US layout) names.    *)",
"KeyRows == <<"]
out.append(",\n".join('  [c |-> %s, n |-> %s, a |-> %s, s |-> %s]'%(r[0],q(r[1]),q(r[2]),q(r[3])) for r in rows))
out+=[">>","============================================================================="]
open(here+'/../spec/KeyTable.tla','w').write('\n'.join(out)+'\n')
