"""Development helper: write the tables of DESIGN.md

Reads properties.jsonl, the harnesses, known_findings.jsonl, seeded/ and the
evidence of the last quick runs.
"""
import ast
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    'C01': 'arithmetic on the input: kind, |v - round(v)| <= 1e-9, bounds',
    'C02': 'the documented words, str methods on the drawn text and the drawn '
           'pattern',
    'C03': 'membership in the declared choices and aliases, compared in the '
           'declared case mode',
    'C04': 'the digits drawn for the text give the three numbers; the table '
           'of web colors is a copy from the CSS standard',
    'C05': 'the fields drawn for the text are the fields of the date; URL '
           'parts are concatenated by the harness and the removal options '
           'applied to the parts',
    'C06': 'the element property applied alone to each element; identity of '
           'the stored object; a mutation of the input afterwards',
    'C07': 'each alternative applied alone, in order',
    'C08': 'isinstance and the construction of the class by hand',
    'C09': 'a second validate() of the stored value is the identity, and '
           'owner.validate() is True',
    'C10': 'snapshots (deep, by value and identity) before and after; the '
           'set of bad arguments drawn by the scenario',
    'C11': 'a reference queue of expected notifications computed from the '
           'drawn history',
    'C12': 'a stack of silenced types kept by the scenario',
    'C13': 'the same operation on a built-in list, set or dict, and the '
           'number of notifications the documentation promises',
    'C14': 'the set of unset, refused and vetoed properties drawn by the '
           'scenario',
    'C15': 'a recursive model of each walk on the drawn link graph; the same '
           'call repeated after the failure',
    'C16': 'nearest-entry-in-MRO computed on a plain Python class hierarchy',
    'C17': 'attribute lookup on plain Python classes of the same shape',
    'C18': 'the function of the scenario validated by the decorating property',
    'C19': 'json_compatible (dict, list, str, int, float, bool, None only), '
           'json.dumps/loads for concrete values, equality of values and '
           'types after reading',
    'C20': 'a table of (trusted, strict, registered, name) -> class, and the '
           'set of properties that may be set',
    'C21': 'comparison of the drawn values by the rule of their kind; '
           'unfolding of the drawn graph for links',
    'C22': 'identity of every object reachable from either side and deep '
           'snapshots after mutations of the other',
    'C23': 'the drawn graph itself: nodes, references and identities; a '
           'reference register of uids in use',
    'C24': 'a fixed-point model of propagation over the drawn links',
    'C25': 'the call order and the inputs and outputs drawn',
    'C26': 'the same operation under the new name on a class without renaming',
    'C27': 'a reference register (name, register) -> object, value',
    'C28': 'the nested lists from which the arrays are built',
    'C29': 'component-wise arithmetic on the drawn numbers (real arithmetic '
           'with tolerance for lengths)',
    'C30': 'the recorded calls of the stand-in files and the bytes of the '
           'images the scenario made',
    'C31': 'the documented kind of each option and order of the limits',
    'C32': 'the parts the documentation of ValidationError promises, counted '
           'calls of the hook',
    'C33': 'names grouped and sorted by the scenario',
    'C34': 'membership in the list of declared names; a recursive model of '
           'the guarded call',
    'C35': 'the rule of the user-made type applied to the drawn value',
}


def literal(tree, name):
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name \
                if isinstance(n, ast.Assign) and \
                isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)
    return None


def scenarios(tree):
    out = {'quick': [], 'thorough': []}
    for n in tree.body:
        if not isinstance(n, ast.FunctionDef):
            continue
        for d in n.decorator_list:
            if isinstance(d, ast.Call) and d.func.id == 'scenario':
                tier = [k.value.value for k in d.keywords if k.arg == 'tier']
                doc = ast.get_docstring(n) or ''
                doc = re.sub(r'\s+', ' ', doc)
                out[tier[0] if tier else 'quick'].append((n.name, doc))
    return out


def lower(text):
    if text[1:2].islower():
        return text[0].lower() + text[1:]
    return text


def table():
    out = []
    for line in open(ROOT + '/properties.jsonl'):
        p = json.loads(line)
        src = open('%s/harness/%s.py' % (ROOT, p['id'].lower())).read()
        tree = ast.parse(src)
        sc = scenarios(tree)
        out.append('### %s %s\n' % (p['id'], p['title']))
        b = literal(tree, 'BOUNDS')
        out.append('* Symbolic, within bounds: %s.' % b)
        a = literal(tree, 'ASSUMPTIONS')
        if a:
            out.append('* Outside or assumed: %s.' % '; '.join(a))
        out.append('* Oracle: %s.' % ORACLE[p['id']])
        for t in ('quick', 'thorough'):
            if sc[t]:
                out.append('* %s scenarios: %s.' % (t.capitalize(), '; '.join(
                    '`%s`%s' % (n, ' (%s)' % lower(d.rstrip('.')) if d else '')
                    for n, d in sc[t])))
        out.append('* Beyond the tests: %s' % p['why_tests_cant'])
        f = '%s/evidence/%s.json' % (ROOT, p['id'])
        if os.path.exists(f):
            e = json.load(open(f))
            c = e['coverage']
            if e['tier'] == 'quick':
                out.append('* Cost (quick): about %d paths, %d queries, %d s.'
                           % (round(c['states'], -2) or c['states'],
                              round(c['solver']['queries'], -2),
                              max(1, round(e['wall_s']))))
        out.append('')
    return '\n'.join(out)


def defects():
    out = ['Repaired (one `fix:` commit each):', '']
    known = []
    for line in open(ROOT + '/known_findings.jsonl'):
        line = line.strip()
        if line.startswith('fixed:'):
            m = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
            out.append('* %s %s: %s.' % m.groups())
        elif line:
            d = json.loads(line)
            known.append('* %s `%s`: %s.' % (d['property'], d['id'],
                                             d['what'].rstrip('.')))
    return '\n'.join(out + ['', 'Not repaired (listed as known findings; the '
                            'repair would change what the library stores or '
                            'writes):', ''] + known)


def seeds():
    out = ['| bug | property | what it breaks | what it needs |',
           '|---|---|---|---|']
    for f in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        m = json.load(open(f))
        out.append('| %s | %s | %s | %s |' % (
            f.split('/')[-2], m['property'], m['what_it_breaks'].replace(
                '|', '/'), m['needs'].replace('|', '/')))
    return '\n'.join(out)


s = open(ROOT + '/tools/DESIGN.tmpl').read()
for k, fn in (('@TABLE@', table), ('@DEFECTS@', defects), ('@SEEDS@', seeds)):
    s = s.replace(k, fn())
open(ROOT + '/DESIGN.md', 'w').write(s)
