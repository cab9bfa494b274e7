#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []          # (id, title, statement, over, text, why, files, mech, level_note)


def prop(id, title, statement, over, text, why, files, mech, note,
         technique=None, na=None, level='proof'):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[
                      dict(name=n, where=w) for n, w in mech]),
                  note=' '.join(note.split()), technique=technique, na=na,
                  level=level))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

DEFAULT = ('interprocedural dataflow (abstract interpretation of the AST) with'
           ' an exact polynomial/linear-form value domain and trace '
           'partitioning, compared with an independent specification')


def design(Q):
    """DESIGN.md: per property, the doc string of its check (what is
    specified, enumerated, analysed), bounds and cost"""
    import ast
    T = os.path.join(HERE, 'tools')
    cost = json.load(open(os.path.join(T, 'cost.json')))
    catch = json.load(open(os.path.join(T, 'catch.json')))
    out = ['## Properties', '']
    for p in Q:
        if p['na']:
            continue
        src = open(os.path.join(HERE, 'checks', p['id'].lower() +
                                '.py')).read()
        out += ['### %s %s' % (p['id'], p['title']), '',
                'Method and oracle: ' + ' '.join(
                    (ast.get_docstring(ast.parse(src)) or '').split()),
                '', 'Bounds: ' + p['note'], '',
                'Beyond tests: ' + p['why_tests_cant'], '']
        if p['id'] in cost:
            out += ['Cost: %s' % cost[p['id']], '']
    na = ['* **%s %s**: %s' % (p['id'], p['title'], p['na'])
          for p in Q if p['na']]
    tab = ['| planted change | property | caught by |', '|---|---|---|']
    for n in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        m = json.load(open(os.path.join(HERE, 'seeded', n, 'meta.json')))
        tab.append('| %s: %s | %s | %s |' % (
            n, m['what_it_breaks'].replace('|', '/'), m['property'],
            catch.get(n, 'not run')))
    s = open(os.path.join(T, 'DESIGN.in.md')).read()
    s = s.replace('@@PROPERTIES@@', chr(10).join(out).rstrip())
    s = s.replace('@@NA@@', chr(10).join(na))
    s = s.replace('@@CATCH@@', chr(10).join(tab))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(s)


def main():
    # only properties that are decided (or declined)
    Q = [p for p in P if p['na'] or os.path.exists(os.path.join(
        HERE, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in Q:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({k: p[k] for k in (
                'id', 'title', 'statement', 'quantifier', 'why_tests_cant',
                'anchors')}) + '\n')
    man = dict(version=1, setup_cmd='python3-vt tools/selftest.py',
               checks=[], not_applicable=[],
               hooks=dict(guard='', enable=''))
    for p in Q:
        if p['na']:
            man['not_applicable'].append(dict(property=p['id'],
                                              reason=p['na']))
            continue
        man['checks'].append(dict(
            property=p['id'],
            quick_cmd='python3-vt check.py %s --tier quick' % p['id'],
            thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
            technique=p['technique'] or DEFAULT, level=p['level'],
            level_note=p['note']))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    design(Q)
    print(len(Q), 'of', len(P), 'properties')


if __name__ == '__main__':
    main()
