"""Writes properties.jsonl (kept as code so that ids, quantifiers and anchors stay in one reviewable place)."""
import json, os
P = []
def add(id, title, statement, over, text, tests, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
        anchors=dict(files=list(files),
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))
pg = 'pygfunction/'
exec(open(os.path.join(os.path.dirname(__file__), 'properties_src.py')).read())
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
