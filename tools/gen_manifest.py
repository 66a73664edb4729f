"""Writes MANIFEST.json from the rule modules that exist and this table."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': 'interprocedural alias and effect analysis: writes to caller-owned data',
 'C02': 'what-if evaluation of store guards on the gated value graph; aliasing of stored data',
 'C03': 'what-if evaluation of store guards on the gated value graph; aliasing of stored data',
 'C04': 'what-if evaluation of memo guards on the gated value graph; aliasing of memoised data',
 'C05': 'value-flow analysis of every argument binding and option to results',
 'C06': 'role inference over the value graph at every argument binding',
 'C07': 'relational abstract interpretation: value graph in several systems of units, compared in a finite field with uninterpreted functions',
 'C08': 'relational abstract interpretation: value graph at two origins, compared in a finite field with uninterpreted functions',
 'C09': 'non-interference by partial evaluation; effects of queries',
 'C10': 'protocol effects of load aggregation; history weights on the value graph',
 'C11': 'must-raise analysis of error paths under invalid input classes',
 'C12': 'symbolic composition of representation conversions, per quantity',
 'C13': 'import and effect reachability over the call graph',
 'C14': 'algebraic normal forms of the line-source functions per source selection',
 'C15': 'symmetry of kernel normal forms; length ratios at transpositions',
 'C16': 'composition of linear relations on the value graph; identities decided in a finite field with exponentials',
 'C17': 'information-flow and effect analysis: nondeterminism, global state',
 'C18': 'what-if evaluation of similarity predicates per quantity',
 'C19': 'abstract interpretation of the generators at generic points, against the documented layout',
 'C20': 'abstract interpretation of the discretizations at generic points, against their documented definition',
 'C21': 'relational abstract interpretation: value graph of two formulations of the same response, compared in a finite field',
}
NOTE = ('Decided from the source of /repo on every run by abstract interpretation over all paths (no execution). Reports definite '
        'violations; obligations that cannot be decided are listed as undecided in the evidence. Trusts the model of numpy/scipy '
        'functions used and the parameter type tables in pgstatic/model.py.')
PY = {x: 'python3-vt' for x in ('C07', 'C08', 'C10', 'C12', 'C16', 'C19', 'C20', 'C21')}      # needs numpy to hold arrays of polynomials
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    i = json.loads(l)['id']
    if os.path.exists(os.path.join(HERE, 'pgstatic', 'rules', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd=f'{PY.get(i, "python3")} check.py {i} --tier quick', thorough_cmd=f'{PY.get(i, "python3")} check.py {i} --tier thorough',
                           technique='static analysis: ' + T[i], level='other', level_note=NOTE))
    else:
        na.append(dict(property=i, reason='check under construction: not claimed yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks])
