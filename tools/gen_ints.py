#!/usr/bin/env python3
"""Generates sim/ints/src/list.rs: every bit-limited integer type, and snapshot records made of them."""
import os
def nat(w, s): return ('i' if s else 'u') + str(8 if w <= 8 else 16 if w <= 16 else 32 if w <= 32 else 64)
o = ['// generated by tools/gen_ints.py']
o.append('pub static INTS: &[&dyn IntOps] = &[')
for s in (0, 1):
    for w in range(1, 65): o.append('    &Of::<%s, %d>(PhantomData),' % (nat(w, s), w))
o.append('];')
groups = [('A', [(w, s) for w in range(1, 9) for s in (0, 1)]), ('B', [(w, s) for w in range(9, 17) for s in (0, 1)]),
          ('C', [(w, s) for w in range(17, 33) for s in (0, 1)]), ('D', [(w, 0) for w in range(33, 65)]), ('E', [(w, 1) for w in range(33, 65)])]
for g, ts in groups:
    o.append('snap! { Snap%s %s }' % (g, ', '.join('%s%d %s %d' % ('is'[0] if s else 'u', w, nat(w, s), w) for w, s in ts)))
open(os.path.join(os.path.dirname(__file__), '../sim/ints/src/list.rs'), 'w').write('\n'.join(o) + '\n')
