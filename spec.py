#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 spec.py  rewrites both."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
E = 'EnvironmentSimulator/'
M = E + 'Modules/'
SE = M + 'ScenarioEngine/SourceFiles/'
LIB = E + 'Libraries/esminiLib/esminiLib.cpp'
PB = M + 'PlayerBase/'
TECH = 'deterministic simulation: seeded search over call sequences, schedules and injected faults'

PROPS = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, note, observe=None, level='exploration', tech=None, claimed=True):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
    PROPS[-1]['_m'] = dict(note=note, level=level, tech=tech or TECH)


def na(id, title, statement, over, qtext, why, files, mech, reason):
    prop(id, title, statement, over, qtext, why, files, mech, '')
    NA.append(dict(property=id, reason=reason))


exec(open(os.path.join(HERE, 'spec_props.py')).read())


def main():
    nas = {n['property'] for n in NA}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] in nas:
            continue
        assert os.path.exists(os.path.join(HERE, 'props', p['id'].lower() + '.py')), p['id']
        checks.append(dict(property=p['id'], quick_cmd=f'python3 check.py {p["id"]} quick', thorough_cmd=f'python3 check.py {p["id"]} thorough',
                           evidence_file=f'evidence/{p["id"]}.json', technique=p['_m']['tech'], level=p['_m']['level'], level_note=p['_m']['note']))
    man = dict(version=1, setup_cmd='python3 -m vsim.build plain', hooks=dict(guard='none', enable='no hooks are added to /repo: all seams are libc symbols interposed by the simulator executable', source_commits=[]),
               checks=checks, not_applicable=NA,
               notes='Every check compiles the current tree of /repo together with the simulator under /verif/build and runs one seeded search; replay a reported file with python3 check.py --replay FILE.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    # DESIGN.md
    txt = ''
    for p in PROPS:
        if p['id'] in nas:
            continue
        txt += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* Explored: {p['quantifier']['text']}.\n* How it is decided: {p['_m']['note']}\n* Observed: {', '.join(p['anchors']['observe_at'])}.\n* Why tests cannot: {p['why_tests_cant']}\n\n"
    if NA:
        txt += '### Not applicable\n\n' + ''.join(f"* {n['property']} ({next(p['title'] for p in PROPS if p['id'] == n['property'])}): {n['reason']}\n" for n in NA)
    res = dict(l.strip().split(' ', 1) for l in open(os.path.join(HERE, 'seeded_results.txt')) if l.strip())
    sd = '| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n'
    for k in sorted(res):
        f = os.path.join(HERE, 'seeded', k, 'meta.json')
        if os.path.exists(f):
            m = json.load(open(f))
            sd += f"| {k} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {res[k]} |\n"
    d = open(os.path.join(HERE, 'design_head.md')).read()
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d.replace('@PROPS@', txt.rstrip()).replace('@SEEDED@', sd.rstrip()))


main()
