"""Writes /verif/MANIFEST.json from properties.jsonl and the modules of the checks."""
import ast, json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C04': 'stateful property-based testing (Hypothesis) against a list-of-maps model',
    'C05': 'stateful property-based testing (Hypothesis) against a list-of-maps model',
    'C13': 'stateful model-based property testing (Hypothesis)',
    'C22': 'property-based testing of generated expression programs against a model with units',
    'C28': 'property-based testing (Hypothesis) against dense linear algebra, under the address sanitizer',
    'C30': 'stateful property-based testing against forward-differentiated reference definitions',
    'C31': 'stateful property-based testing of prompt sessions against a line-by-line model',
    'C32': 'metamorphic property-based testing: every generated call of all checks repeated on copies, in other orders, after its results were overwritten',
    'C12': 'property-based testing (Hypothesis) of generated meshes against a reference cross section',
    'C17': 'property-based testing (Hypothesis) against exact rational arithmetic',
    'C27': 'property-based testing (Hypothesis) against exact rational arithmetic',
}
checks = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    tree = ast.parse(open(os.path.join(HERE, 'vf', 'props', d['id'].lower() + '.py')).read())
    v = {'RULE': '', 'ASSUMPTIONS': []}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in v:
            v[n.targets[0].id] = ast.literal_eval(n.value)
    note = 'Held on every generated case: no proof. Cases: ' + v['RULE']
    if v['ASSUMPTIONS']:
        note += ' Assumed: ' + '; '.join(v['ASSUMPTIONS']) + '.'
    checks.append({
        'property': d['id'],
        'quick_cmd': './check.sh %s quick' % d['id'],
        'thorough_cmd': './check.sh %s thorough' % d['id'],
        'technique': TECH.get(d['id'], 'property-based testing (Hypothesis) against a reference model and algebraic relations'),
        'level': 'exploration',
        'level_note': note,
    })
checks.sort(key=lambda c: c['property'])
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo. ./check.sh ID [quick|thorough]; VERIF_SEED selects the generated cases; '
              'python -m vf.run --replay FILE repeats a failure. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
