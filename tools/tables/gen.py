#!/usr/bin/env python3
"""spec/vif_tables.txt -> spec/viftab.rs (specification functions) and oracle/src/viftab.rs (the same table as data)."""
import os, re
base = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for l in open(base + '/spec/vif_tables.txt'):
    l = l.split('#')[0].split()
    if not l:
        continue
    l += ['-'] * (6 - len(l))
    t, code, labels, units, scale, offset = l
    if code == '*':
        lo, hi = -1, -1
    else:
        p = code.split('-')
        lo, hi = int(p[0], 16), int(p[-1], 16)
    labels = None if labels == '!' else [] if labels == '-' else labels.split(',')
    us = []
    for u in ([] if units == '-' else units.split(',')):
        n, _, x = u.partition('^')
        us.append((n, int(x or 1)))
    def num(s):
        if s == '-':
            return (0, 0)
        m = re.fullmatch(r'n([+-]\d+)?', s)
        return (1, int(m.group(1) or 0)) if m else (0, int(s))
    rows.append((t, lo, hi, labels, us, num(scale), num(offset)))
tables = []
for r in rows:
    if r[0] not in tables:
        tables.append(r[0])
spec = ['// generated from vif_tables.txt by tools/tables/gen.py']
def sexpr(r):
    t, lo, hi, labels, us, s, o = r
    if labels is None:
        return 'None'
    l = ['ValueLabel::' + x for x in labels] + ['ValueLabel::Reserved'] * 2
    u = ['Unit { name: UnitName::%s, exponent: %di32 }' % u if u[1] > 0 else 'Unit { name: UnitName::%s, exponent: (%d) as i32 }' % u for u in us] + ['sp_no_unit()'] * 2
    f = lambda k: ('c - %d + %d' % (lo, k[1])).replace('+ -', '- ').replace(' + 0', '') if k[0] else '%d' % k[1]
    return 'sp_entry(%d, %s, %s, %d, %s, %s, %s, %s)' % (len(labels), l[0], l[1], len(us), u[0], u[1], f(s), f(o))
for t in tables:
    spec.append('pub open spec fn sp_tab_%s(c: int) -> Option<VEntry> {' % t)
    for r in rows:
        if r[0] != t:
            continue
        cond = 'c == 0x%02X' % r[1] if r[1] == r[2] else '0x%02X <= c <= 0x%02X' % (r[1], r[2])
        spec.append('    { %s }' % sexpr(r) if r[1] < 0 else '    if %s { %s } else' % (cond, sexpr(r)))
    spec.append('}')
open(base + '/spec/viftab.rs', 'w').write(open(base + '/spec/vif_state.rs.in').read() + '\n'.join(spec) + '\n')
out = ['// generated from vif_tables.txt by tools/tables/gen.py', 'pub type Row = (&\'static str, i32, i32, Option<&\'static [&\'static str]>, &\'static [(&\'static str, i32)], (i32, i32), (i32, i32));', '#[rustfmt::skip]', 'pub const ROWS: &[Row] = &[']
for t, lo, hi, labels, us, s, o in rows:
    ls = 'None' if labels is None else 'Some(&[%s])' % ', '.join('"%s"' % x for x in labels)
    out.append('    ("%s", %d, %d, %s, &[%s], %s, %s),' % (t, lo, hi, ls, ', '.join('("%s", %d)' % u for u in us), s, o))
out.append('];')
open(base + '/oracle/src/viftab.rs', 'w').write('\n'.join(out) + '\n')
