"""Writes properties.jsonl and MANIFEST.json: python3 tools/props.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mech, state=(),
         observe=(), note='', claim=True):
    anchors = dict(files=list(files), mechanism=[
        dict(name=n, where=w) for n, w in mech])
    if state:
        anchors['state'] = [dict(name=n, meaning=m, where=w)
                            for n, m, w in state]
    if observe:
        anchors['observe_at'] = list(observe)
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()), anchors=anchors,
                  _note=note, _claim=claim))


B = 'properties/basic.py'
BASE = 'properties/base/base.py'
CONT = 'properties/base/containers.py'
INST = 'properties/base/instance.py'
UNION = 'properties/base/union.py'
HAND = 'properties/handlers.py'
UTIL = 'properties/utils.py'
UID = 'properties/extras/uid.py'
SING = 'properties/extras/singleton.py'
TASK = 'properties/extras/task.py'
WEB = 'properties/extras/web.py'
LINK = 'properties/link.py'
MATH = 'properties/math.py'
IMG = 'properties/images.py'

prop('C01', 'Numeric properties accept and store exactly the right numbers',
     '''A numeric property accepts a value exactly when it is a number of its
     kind (within the documented tolerance for integers), or casts to one when
     casting is on, and lies inside the declared bounds; everything else is
     refused with a validation error and stores nothing. What is stored has
     exactly the declared Python type and the same numeric value.''',
     ['inputs', 'configurations'],
     '''all ints, all floats k/2**40 up to 4096 in magnitude plus nan and the
     infinities, booleans, complex numbers, text up to 3 characters, and all
     pairs of bounds, with and without casting''',
     '''Tests try a handful of constants; the tolerance edge, the interaction
     of rounding with bounds, nan/inf and text parsing are decided by
     comparisons over an unbounded input space.''',
     [B], [('type, tolerance and cast', 'basic.Integer/Float/Complex.validate'),
           ('bounds', 'basic._in_bounds'), ])
prop('C02', 'Boolean and text properties apply their rules to every value',
     '''A boolean property accepts booleans only (or any value through its
     truth value when casting), and reads the documented words from text. A
     text property accepts text only, matches its pattern, strips exactly the
     configured characters and changes case exactly as configured.''',
     ['inputs', 'configurations'],
     '''all text up to 4 characters (full Unicode range where the rule does not
     depend on case tables), every rule configuration, other kinds of value''',
     '''Tests cover a few words; the rules quantify over every string and
     every configuration.''',
     [B], [('truth values', 'basic.Boolean.validate/from_json'),
           ('text rules', 'basic.String.validate')])
prop('C03', 'A choice property stores only a declared choice',
     '''A choice property accepts a text exactly when it equals a choice or one
     of its aliases (ignoring case unless case sensitive) and then stores the
     choice itself. Declarations in which an alias is ambiguous, repeated or
     not text are refused, so every accepted text has exactly one meaning.''',
     ['inputs', 'configurations'],
     '''symbolic choices and aliases (two choices, up to two aliases) and a
     symbolic value, each up to 2-3 characters, both case modes, list, tuple,
     set and dict declarations, descriptions''',
     '''Tests use fixed vocabularies; ambiguity and case folding depend on how
     arbitrary choices, aliases and values relate.''',
     [B], [('lookup', 'basic.StringChoice.validate'),
           ('declaration checks', 'basic.StringChoice.choices setter')])
prop('C04', 'Colors are always a triple of byte values meaning the given color',
     '''Whatever a color property accepts is stored as three integers between
     0 and 255: triples unchanged, 3- and 6-digit hex text by its digits, named
     colors by the web standard table, ignoring case. Everything else is
     refused.''',
     ['inputs'],
     '''every hex text (each digit symbolic), all other text up to 7
     characters over the relevant alphabet, triples of arbitrary values of any
     length up to 4, all standard names''',
     '''Tests try a few colors; 16**6 hex texts, every near-miss text and
     every triple cannot be listed.''',
     [B], [('color rules', 'basic.Color.validate'),
           ('names', 'basic.COLORS_NAMED')])
prop('C05', 'Dates and URLs are parsed exactly and survive a round trip',
     '''Date text in a documented format is accepted exactly when it names a
     real calendar time and becomes that time; datetimes are kept and written
     so that reading gives the same time back. URL text is accepted exactly
     when it has a scheme and a location, and only the parts configured for
     removal are removed.''',
     ['inputs', 'configurations'],
     '''every digit of the documented date formats symbolic, every whole
     second from year 1 to 9999, malformed variants, URLs built from symbolic
     parts with both removal options''',
     '''Tests use single dates and URLs; leap years, padding and part
     boundaries need all values.''',
     [B, WEB], [('parsing', 'basic.DateTime.validate/from_json/to_json'),
                ('URL parts', 'extras.web.URL.validate')])
prop('C06', 'Containers validate each element and keep their own copy',
     '''A container property accepts a container exactly when its element
     property accepts every element (keys and values for dictionaries), and
     stores a fresh container of the same type holding the coerced elements,
     leaving the input untouched and unshared. Length limits are inclusive and
     enforced on validation; coercion turns other containers and single items
     into the declared container type.''',
     ['inputs', 'configurations'],
     '''tuples, lists, sets and dictionaries of up to 2-3 symbolic elements of
     several kinds, nested lists, instance elements, symbolic length limits,
     coerce and observe options''',
     '''Tests use a few literal containers; the claim relates the container to
     its element property for every element value and position.''',
     [CONT], [('element-wise validation', 'containers.Tuple.validate, '
               'containers.Dictionary.validate'),
              ('length limits', 'containers.Tuple.assert_valid')])
prop('C07', 'A union acts as its first alternative that accepts the value',
     '''A union property accepts a value exactly when one of its alternatives
     does, and validates, writes, reads and defaults exactly as the first such
     alternative in declaration order. Serialized instances that name a class
     are read by the alternative of that class.''',
     ['inputs', 'configurations'],
     '''unions of up to 3 alternatives from seven kinds with symbolic bounds,
     symbolic values of nine kinds''',
     '''Tests fix one union and one value; precedence matters exactly where
     several alternatives overlap, which depends on bounds and values.''',
     [UNION], [('first success', 'union.Union._try_prop_method, serialize, '
                'deserialize')])
prop('C08', 'Instance properties hold instances of their class and nothing else',
     '''An instance property keeps instances of its class by identity and
     otherwise builds one from the value exactly when the class accepts it;
     refusal is a validation error, while unrelated errors surface. Validating
     the owner validates the instances it holds, as they are now, directly or
     inside containers and unions.''',
     ['inputs', 'histories'],
     '''instances, keyword dictionaries, single arguments with symbolic
     contents, parts altered after assignment''',
     '''Tests build a few instances; the equivalence with the class's own
     construction holds for every argument and every later change.''',
     [INST], [('construction', 'instance.Instance.validate'),
              ('deep validation', 'instance.Instance.assert_valid')])

exec(open(os.path.join(ROOT, 'tools', 'props_more.py')).read())


def main():
    P.sort(key=lambda d: d['id'])
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for d in P:
            assert len(d['title']) <= 80, d['title']
            fh.write(json.dumps({k: v for k, v in d.items()
                                 if k[0] != '_'}) + '\n')
    checks = []
    for d in P:
        if not d['_claim']:
            continue
        checks.append(dict(
            property=d['id'],
            quick_cmd='python3 check.py %s --tier quick' % d['id'],
            thorough_cmd='python3 check.py %s --tier thorough' % d['id'],
            technique='symbolic execution of the current source (AST-'
            'instrumented, Python proxies over z3 terms) with every path '
            'condition and assertion decided by z3; counterexamples replayed '
            'on the uninstrumented code',
            level='model_checking',
            level_note=d['_note'] or 'exhaustive over the stated symbolic '
            'bounds when evidence reports exhaustive=true; bounds and '
            'assumptions in harness/%s.py and in the evidence file'
            % d['id'].lower()))
    man = dict(version=1, setup_cmd='python3 check.py --self-test',
               checks=checks, not_applicable=NOT_APPLICABLE)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(man, fh, indent=1)
        fh.write('\n')


main()
