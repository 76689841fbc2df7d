#!/usr/bin/env python3
"""Writes contracts/safecast.spec: one contract per conversion in the package's API.

The result equals the argument, and the function panics exactly when the
argument is not representable in the result type.  Derived from the function
names alone, not from the bodies."""
import re, sys
names = re.findall(r'^func ([A-Za-z0-9]+)\(', open('/repo/pkg/safecast/safecast.go').read(), re.M)
R = {}
for b in (8, 16, 32, 64):
    R['Int%d' % b] = (-2**(b-1), 2**(b-1)-1)
    R['Uint%d' % b] = (0, 2**b-1)
R['Int'] = R['Int64']; R['Uint'] = R['Uint64']
out = ['// Generated by tools/mksafecast.py.', 'package safecast', 'props C01', '']
for n in names:
    m = re.match(r'^(U?[Ii]nt\d*)To(U?int\d*|Int\d*)$', n)
    a, b = m.group(1), m.group(2)
    lo, hi = R[b]
    out += ['func safecast.%s(v) (r)' % n, '  panics_iff v < %d || v > %d' % (lo, hi), '  ensures [same-value] r == v', '']
open('/verif/contracts/safecast.spec', 'w').write('\n'.join(out))
