#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table below.
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note, level='exploration', observe=None, state=None, tech=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level, observe=observe or ['bytes exchanged on the simulated sockets'], state=state or [], tech=tech))
TESTS = 'The existing tests are unit tests of containers, encodings and the template engine on fixed inputs; none starts the server, opens a socket or injects a fault.'
IO = ['src/viriatum/stream/stream_io.c', 'src/viriatum/stream/stream_http.c', 'src/viriatum/polling/polling_epoll.c', 'src/viriatum/system/service.c']
FILEH = 'src/viriatum/handlers/handler_file.c'
SEEDED = 'Seeded random search, not exhaustive; trusts the simulated kernel and the reference model (sim/). '

exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P + [q for q in NA]:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], state=p['state'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))
        f.write(json.dumps(d) + '\n')
checks = []
for p in P:
    checks.append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                       technique=p['tech'] or 'deterministic simulation with fault injection: seeded search over schedules, network behaviour and faults against a reference model', level=p['level'], level_note=p['note']))
m = dict(version=1, setup_cmd='bash setup.sh',
         hooks=dict(guard='none', enable='no hook is needed: the simulator compiles the sources of /repo unchanged and interposes the libc calls at link time (ld --wrap), see sim/build.py', source_commits=[]),
         checks=checks, not_applicable=[dict(property=q['id'], reason=q['reason']) for q in NA],
         notes='One simulator (sim/) runs the real server code in one process per seed; bash replay.sh <file> reproduces a violation; known_findings.txt lists findings and fixes.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'checks,', len(NA), 'not applicable')
t = '| id | property | oracle | anchored in |\n|---|---|---|---|\n'
for p in P: t += '| %s | %s | %s | %s |\n' % (p['id'], p['title'], p['note'], ', '.join(os.path.basename(f) for f in p['files'][:4]))
n = ''.join('* %s %s: %s\n' % (q['id'], q['title'], q['reason']) for q in NA)
hits = json.load(open(os.path.join(V, 'tools', 'plant', 'hits.json')))
b = '| bug | breaks | needs | caught by |\n|---|---|---|---|\n'
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    x = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    b += '| %s | %s: %s | %s | %s |\n' % (i, x['property'], x['what_it_breaks'], x['needs'], hits.get(i, 'check ' + x['property']))
d = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read().replace('%TABLE%', t).replace('%NA%', n).replace('%BUGS%', b)
open(os.path.join(V, 'DESIGN.md'), 'w').write(d)
