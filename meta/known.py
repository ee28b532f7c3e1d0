"""known-findings.json is generated from this list: python3 meta/known.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # property, commit, file, what failed
 ('G03', '979ab47', 'generators/biski64_mul.c', 'the state word mix was never initialised'),
 ('G03', '75ec564', 'generators/smwc192.c', 'the state word x2 was never initialised'),
 ('G03', '28cf666', 'generators/smwc192lux.c', 'the state word x2 was never initialised'),
 ('G03', '140b692', 'generators/mularx256.c', 'the state was self-assigned from uninitialised memory and never seeded'),
 ('G02', '3b807df', 'generators/superduper64.c', 'unterminated variant table: out-of-bounds read for an unknown --param'),
 ('G02', '9a142d4', 'generators/lxm_64x128.c', 'shift by 64 in rotl64(x0, 64)'),
 ('G02', '7dc6769', 'generators/pcg32_xsl_rr.c', 'rotation of a 32-bit word by up to 63'),
 ('G05', '5b202a4', 'generators/mrg32k3a.c', 'make_seed had no definition unless it was inlined'),
 ('G03', '43d382b', 'generators/threefry2x64.c', 'scalar variant: uninitialised buffer position (also an out-of-bounds read)'),
 ('G03', 'cc52a18', 'generators/xxtea.c', '256-avx2 variant: half of the counters uninitialised'),
 ('G03', '878fff4', 'generators/xoroshiro128pp.c', 'vector variant: seed ignored, state uninitialised'),
 ('G03', '031d0b9', 'generators/xorshift128pp.c', 'vector variant: seed ignored, state uninitialised'),
 ('G03', 'aa4db92', 'generators/ranrot32.c', 'only a part of the lagged buffer was initialised'),
 ('G07', 'cfcb1bc', 'generators/lfib4.c', 'the seed was ignored'),
 ('G07', 'f6a5fab', 'generators/xoroshiro128pp_vec.c', 'the seed was ignored'),
]
KNOWN = []
exec(open(os.path.join(V, 'meta', 'known_list.py')).read())
L = []
for p, c, f, w in FIXED:
    L.append(dict(status='fixed', property=p, file=f, commit=c, record='fixed: property=%s %s %s: %s' % (p, c, f, w)))
L += [dict(status='known', **k) for k in KNOWN]
json.dump({'findings': L}, open(os.path.join(V, 'known-findings.json'), 'w'), indent=1)
