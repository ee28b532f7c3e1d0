"""Single source for properties.jsonl and MANIFEST.json: python3 meta/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, technique, note, level='other', thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, technique=technique, note=note, level=level, thorough=thorough))


AI = 'abstract interpretation of LLVM IR'
AINOTE = ('Sound over-approximation within the model of the analyser (interval x known-bits, points-to with byte offsets, initialisation and taint tracking; '
          'whole-program, context-sensitive, fixpoint over unbounded call sequences). Trusts clang -O0 lowering, the models of the host callbacks, that malloc succeeds; '
          'covers the x86-64/AVX2 preprocessor configuration. Sites the domains cannot decide are listed in undecided.json and in the evidence.')
CNOTE = ('Sound over-approximation within the model of the analyser (interval x known-bits, points-to with byte offsets, difference bounds, initialisation and taint tracking). '
         'Special functions over scalars return any value, sorting functions permute their argument; covers the portable x86-64 configuration. Entries the analyser cannot finish and sites the domains cannot decide are listed in undecided.json and in the evidence.')
GENF = ['generators/', 'include/smokerand/cinterface.h']
GT = 'The self-tests and the express battery run each generator with one seed, the default parameter and a bounded number of outputs.'
exec(open(os.path.join(V, 'meta', 'list.py')).read())


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                    anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']]))) + '\n')
        for n in NA:
            f.write(json.dumps(dict(id=n['id'], title=n['title'], statement=n['statement'], quantifier=dict(over=n['over'], text=n['qtext']), why_tests_cant=n['why'],
                                    anchors=dict(files=n['files'], mechanism=[dict(name=a, where=b) for a, b in n['mechanism']]))) + '\n')
    checks = []
    for p in P:
        c = dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], technique=p['technique'], level=p['level'], level_note=p['note'])
        if p['thorough']:
            c['thorough_cmd'] = 'env VERIF_TIER=thorough python3 check.py ' + p['id']
        checks.append(c)
    m = dict(version=1, setup_cmd='make -s -j8 -C tool', checks=checks, not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NA],
             notes='Static analysis only. The analyser (tool/, C++ on LLVM 18) is built by setup_cmd; every check recompiles /repo to LLVM IR in a temporary directory and analyses that.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)


main()
