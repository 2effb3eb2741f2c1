#!/usr/bin/env python3
"""One-off: freezes the wave definitions of the reviewed tree into the
reference model's tables (sim/ref_tables.inc).  Not run by any check: the
tables are the oracle and must not follow later changes of the code."""
import re, sys
root = sys.argv[1]
s = open(root + '/include/fes/wave.hpp').read()
c = open(root + '/include/fes/constituent.hpp').read()
ids = dict((n, int(v)) for n, v in re.findall(r'(k\w+) = (\d+),', c))
names = dict(re.findall(r'const char\* const (k\w+)\s*=\s*"([^"]+)"',
                        open(root + '/include/fes/detail/wave/name.hpp').read()))
ws = re.findall(r'Wave\((k\w+), (k\w+), (true|false),([^&]*?)&angle::Astronomic::(\w+)\)', s)
rows = {}
for n, t, a, nums, f in ws:
    v = [int(x) for x in nums.replace('\n', ' ').split(',') if x.strip()]
    assert len(v) == 11, (n, v)
    rows[ids[n]] = (n, t, a, v, f)
assert sorted(rows) == list(range(75))
print('// id, name, short, inferred by default, {T s h p N p1 shift xi nu nu\' nu\'\'}, node factor')
print('static const RefWave kRefWaves[75] = {')
for i in range(75):
    n, t, a, v, f = rows[i]
    print('  {%d, "%s", %d, %d, {%s}, %s},' % (i, names[n], t == 'kShortPeriod', a == 'true',
          ', '.join(map(str, v)), f.upper()))
print('};')
l = open(root + '/src/library/wave/long_period_equilibrium.cpp').read()
r = re.findall(r'/\*\s*0,\*/\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?\d+),\s*(-?[\d.]+)', l)
assert len(r) == 123, len(r)
for nm, part in (('kRefLpe2', r[:106]), ('kRefLpe3', r[106:])):
    print('static const double %s[%d][6] = {' % (nm, len(part)))
    for x in part:
        print('  {' + ', '.join(x) + '},')
    print('};')
