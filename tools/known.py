#!/usr/bin/env python3
# rewrites /verif/known-findings.txt from tools/fixed.txt and tools/known.txt
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o=["# known PROPERTY<TAB>KIND<TAB>OP<TAB>TEXT : a recorded finding (suppresses exactly that);",
   "# fixed: property=ID COMMIT WHAT : repaired in /repo, suppresses nothing."]
k=os.path.join(V,'tools/known.txt')
if os.path.exists(k): o+=[l.rstrip('\n') for l in open(k) if l.strip()]
for l in open(os.path.join(V,'tools/fixed.txt')):
    if l.strip():
        c,p,w=l.rstrip('\n').split(' ',2); o.append(f'fixed: property={p} {c} {w}')
open(os.path.join(V,'known-findings.txt'),'w').write('\n'.join(o)+'\n')
