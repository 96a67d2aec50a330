"""Single source of properties.jsonl and MANIFEST.json: python3 tool/props.py rewrites both."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PROPS = []      # claimed
NA = []         # (property, reason)


def prop(id, title, statement, over, quant, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                       why_tests_cant=why,
                       anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])),
                  technique, note))


def na(id, title, statement, over, quant, why, files, mech, reason):
    assert len(title) <= 80, (id, len(title))
    NA.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant),
                    why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), reason))


TRUST = ('Decided on the clang-18 AST/CFG of every translation unit of /repo that compiles offline (GoTools spline '
         'patches, LR-splines, PETSc and MPI-only code are outside). Trusted: the extractor, the class-hierarchy '
         'resolution of virtual calls, the frozen tables in cfg/. ')

exec(open(os.path.join(HERE, 'props_data.py')).read())


def main():
    allp = sorted([p[0] for p in PROPS] + [p[0] for p in NA], key=lambda d: d['id'])
    assert len({p['id'] for p in allp}) == len(allp)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in allp:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p, tech, note in sorted(PROPS, key=lambda x: x[0]['id']):
        checks.append(dict(property=p['id'], quick_cmd='python3 tool/check.py %s quick' % p['id'],
                           thorough_cmd='python3 tool/check.py %s thorough' % p['id'],
                           technique=tech, level='other', level_note=TRUST + note))
    man = dict(version=1, setup_cmd='python3 tool/facts.py build', checks=checks,
               not_applicable=[dict(property=p['id'], reason=r) for p, r in sorted(NA, key=lambda x: x[0]['id'])],
               notes='No hooks are added to /repo. Known findings and fixed defects: known_findings.txt.')
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    import jsonschema
    s = json.load(open('/root/.vp/MANIFEST.schema.json'))
    jsonschema.validate(man, s)
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in allp:
        jsonschema.validate(p, s)
    print('%d properties: %d claimed, %d not applicable' % (len(allp), len(PROPS), len(NA)))


if __name__ == '__main__':
    main()
