"""C04 colors"""
import properties as p
from harness.common import Thing, any_value
from harness.reg import attempt, scenario

BOUNDS = ('hex text up to 7 characters over hex digits of both cases, "#", '
          'signs, blanks, underscores, non-hex letters and non-ASCII digits; '
          'all 148 CSS color names and the 8 single-letter names; sequences '
          'of up to 4 arbitrary ints or other values')
WITNESSES = ['hex6', 'hex3', 'refused', 'rgb', 'random', 'name']

CSS = dict(w.split('=') for w in '''
    aliceblue=F0F8FF antiquewhite=FAEBD7 aqua=00FFFF aquamarine=7FFFD4
    azure=F0FFFF beige=F5F5DC bisque=FFE4C4 black=000000
    blanchedalmond=FFEBCD blue=0000FF blueviolet=8A2BE2 brown=A52A2A
    burlywood=DEB887 cadetblue=5F9EA0 chartreuse=7FFF00 chocolate=D2691E
    coral=FF7F50 cornflowerblue=6495ED cornsilk=FFF8DC crimson=DC143C
    cyan=00FFFF darkblue=00008B darkcyan=008B8B darkgoldenrod=B8860B
    darkgray=A9A9A9 darkgreen=006400 darkgrey=A9A9A9 darkkhaki=BDB76B
    darkmagenta=8B008B darkolivegreen=556B2F darkorange=FF8C00
    darkorchid=9932CC darkred=8B0000 darksalmon=E9967A darkseagreen=8FBC8F
    darkslateblue=483D8B darkslategray=2F4F4F darkslategrey=2F4F4F
    darkturquoise=00CED1 darkviolet=9400D3 deeppink=FF1493
    deepskyblue=00BFFF dimgray=696969 dimgrey=696969 dodgerblue=1E90FF
    firebrick=B22222 floralwhite=FFFAF0 forestgreen=228B22 fuchsia=FF00FF
    gainsboro=DCDCDC ghostwhite=F8F8FF gold=FFD700 goldenrod=DAA520
    gray=808080 green=008000 greenyellow=ADFF2F grey=808080
    honeydew=F0FFF0 hotpink=FF69B4 indianred=CD5C5C indigo=4B0082
    ivory=FFFFF0 khaki=F0E68C lavender=E6E6FA lavenderblush=FFF0F5
    lawngreen=7CFC00 lemonchiffon=FFFACD lightblue=ADD8E6
    lightcoral=F08080 lightcyan=E0FFFF lightgoldenrodyellow=FAFAD2
    lightgray=D3D3D3 lightgreen=90EE90 lightgrey=D3D3D3 lightpink=FFB6C1
    lightsalmon=FFA07A lightseagreen=20B2AA lightskyblue=87CEFA
    lightslategray=778899 lightslategrey=778899 lightsteelblue=B0C4DE
    lightyellow=FFFFE0 lime=00FF00 limegreen=32CD32 linen=FAF0E6
    magenta=FF00FF maroon=800000 mediumaquamarine=66CDAA mediumblue=0000CD
    mediumorchid=BA55D3 mediumpurple=9370DB mediumseagreen=3CB371
    mediumslateblue=7B68EE mediumspringgreen=00FA9A mediumturquoise=48D1CC
    mediumvioletred=C71585 midnightblue=191970 mintcream=F5FFFA
    mistyrose=FFE4E1 moccasin=FFE4B5 navajowhite=FFDEAD navy=000080
    oldlace=FDF5E6 olive=808000 olivedrab=6B8E23 orange=FFA500
    orangered=FF4500 orchid=DA70D6 palegoldenrod=EEE8AA palegreen=98FB98
    paleturquoise=AFEEEE palevioletred=DB7093 papayawhip=FFEFD5
    peachpuff=FFDAB9 peru=CD853F pink=FFC0CB plum=DDA0DD powderblue=B0E0E6
    purple=800080 rebeccapurple=663399 red=FF0000 rosybrown=BC8F8F
    royalblue=4169E1 saddlebrown=8B4513 salmon=FA8072 sandybrown=F4A460
    seagreen=2E8B57 seashell=FFF5EE sienna=A0522D silver=C0C0C0
    skyblue=87CEEB slateblue=6A5ACD slategray=708090 slategrey=708090
    snow=FFFAFA springgreen=00FF7F steelblue=4682B4 tan=D2B48C teal=008080
    thistle=D8BFD8 tomato=FF6347 turquoise=40E0D0 violet=EE82EE
    wheat=F5DEB3 white=FFFFFF whitesmoke=F5F5F5 yellow=FFFF00
    yellowgreen=9ACD32
'''.split())
LETTERS = {'k': '000000', 'b': '0000FF', 'c': '00FFFF', 'g': '00FF00',
           'm': 'FF00FF', 'r': 'FF0000', 'w': 'FFFFFF', 'y': 'FFFF00'}

HEXISH = ((35, 35), (43, 43), (45, 45), (32, 32), (48, 57), (65, 71),
          (95, 95), (97, 103), (120, 120), (0x661, 0x661), (0xff11, 0xff11))
HEX = ((48, 57), (65, 70), (97, 102))


def digit(c):
    """Value of a hex digit, or None"""
    o = ord(c)
    if 48 <= o <= 57:
        return o - 48
    if 65 <= o <= 70:
        return o - 55
    if 97 <= o <= 102:
        return o - 87
    return None


def as_rgb(text):
    """RGB of '#rgb', 'rgb', '#rrggbb', 'rrggbb'; None when malformed"""
    if text[:1] == '#':
        text = text[1:]
    if len(text) not in (3, 6):
        return None
    d = [digit(c) for c in text]
    if None in d:
        return None
    if len(d) == 3:
        return tuple(17 * x for x in d)
    return tuple(16 * d[i] + d[i + 1] for i in (0, 2, 4))


def put(ctx, v):
    class A(p.HasProperties):
        c = p.Color('c')
    a = A()
    ok, err = attempt(setattr, a, 'c', v)
    if not ok:
        ctx.check(isinstance(err, p.ValidationError),
                  'refused with ValidationError')
        ctx.check(a.c is None, 'nothing stored')
    else:
        ctx.check(type(a.c) is tuple and len(a.c) == 3,
                  'stored as a tuple of three')
    return ok, a.c


@scenario('C04', weight=4)
def text(ctx):
    """Arbitrary text of 0 to 4 characters"""
    v = ctx.str('v', 4, HEXISH)
    if len(v) == 1:
        for k in LETTERS:
            ctx.assume(v != k)
    ctx.assume(v[:2] != '##')            # repeated "#" is left open
    ok, c = put(ctx, v)
    want = as_rgb(v)
    ctx.check(ok == (want is not None), 'accepted exactly when a hex color')
    if want is not None:
        ctx.cover('hex3')
        ctx.check(c == want, 'hex digits give the RGB value')
    else:
        ctx.cover('refused')


@scenario('C04', weight=3)
def hex6(ctx):
    """Six hex digits: exact value of every channel"""
    if ctx.deep:
        v = ctx.str('v', 6, HEX, minlen=6)
    else:                               # one channel at a time
        i = 2 * ctx.pick('channel', 3)
        v = '1a9Bf0'[:i] + ctx.str('v', 2, HEX, minlen=2) + '1a9Bf0'[i + 2:]
    v = ('#' if ctx.flag('sharp') else '') + v
    ok, c = put(ctx, v)
    ctx.check(ok, 'six hex digits accepted')
    ctx.cover('hex6')
    ctx.check(c == as_rgb(v), 'hex digits give the RGB value')


@scenario('C04', weight=3)
def hex6_spoiled(ctx):
    """One character of a six digit hex color is arbitrary"""
    i = ctx.pick('i', 6)
    bad = ctx.str('bad', 1, HEXISH, minlen=1)
    good = ctx.str('good', 1, HEX, minlen=1)
    v = '1a9Bf' [:i] + bad + '1a9Bf'[i:]
    v = ('#' if ctx.flag('sharp') else '') + v
    if ctx.flag('two'):
        v = v[:-1] + good
    ctx.assume(v[:2] != '##')
    ctx.assume(not (i == 0 and bad == '#'))
    ok, c = put(ctx, v)
    want = as_rgb(v)
    ctx.check(ok == (want is not None), 'accepted exactly when a hex color')
    if ok:
        ctx.check(c == want, 'hex digits give the RGB value')


@scenario('C04')
def wrong_length(ctx):
    v = ctx.str('v', 8, HEX, minlen=4)
    ctx.assume(len(v) != 6)
    ok, c = put(ctx, v)
    ctx.check(not ok, 'wrong number of digits refused')


@scenario('C04', weight=2)
def names(ctx):
    """Every CSS name gives its CSS value"""
    table = dict(CSS, **LETTERS)
    name = ctx.choice('name', sorted(table))
    ok, c = put(ctx, name)
    ctx.cover('name')
    ctx.check(ok, 'web color name accepted')
    ctx.check(c == as_rgb(table[name]), 'web color name has its CSS value')


@scenario('C04')
def random_color(ctx):
    word = ctx.choice('word', ['random', 'RANDOM', 'Random'])
    ok, c = put(ctx, word)
    ctx.check(ok, 'random accepted')
    ctx.cover('random')
    for x in c:
        ctx.check(type(x) is int and 0 <= x and x <= 255, 'channel in range')


@scenario('C04', weight=2)
def sequence(ctx):
    n = ctx.pick('n', 5)
    vals = [ctx.int('v%d' % i) for i in range(n)]
    kind = ctx.choice('kind', [list, tuple, set])
    v = kind(vals)
    ok, c = put(ctx, v)
    good = kind is not set and n == 3 and all(
        0 <= x and x <= 255 for x in vals)
    ctx.check(ok == good, 'accepted exactly when three ints in 0..255')
    if ok:
        ctx.cover('rgb')
        ctx.check(c == tuple(vals), 'channels kept in order')


@scenario('C04')
def odd_channels(ctx):
    """Something other than an int among the channels"""
    i = ctx.pick('i', 3)
    vals = [0, 128, 255]
    vals[i] = any_value(ctx, 'v', 'fcsnlo', maxlen=1)
    ok, c = put(ctx, vals if ctx.flag('list') else tuple(vals))
    ctx.check(not ok, 'non-integer channel refused')


@scenario('C04')
def not_color(ctx):
    v = any_value(ctx, 'v', 'bifcnltdoxe')
    ok, c = put(ctx, v)
    ctx.check(not ok, 'not a color')


@scenario('C04', weight=2)
def nearly_random(ctx):
    """Nothing but the word itself asks for a random color"""
    c = ctx.str('c', 1, ((32, 126),), minlen=1)
    where = ctx.pick('where', 3)
    word = ctx.choice('word', ['random', 'RANDOM'])
    ctx.assume(c not in ' #')
    v = c + word if where == 0 else word + c if where == 1 else \
        word[:3] + c + word[3:]
    ok, err = put(ctx, v)
    ctx.check(not ok, 'refused')


@scenario('C04')
def equal_channels(ctx):
    x = ctx.int('x')
    other = ctx.int('o', 250, 260)
    at = ctx.pick('at', 4)
    v = [x, x, x]
    if at < 3:
        v[at] = other
    ok, c = put(ctx, v if ctx.flag('list') else tuple(v))
    ctx.check(ok == all(0 <= i and i <= 255 for i in v),
              'accepted exactly when three ints in 0..255')
    if ok:
        ctx.check(c == tuple(v), 'channels kept')


@scenario('C04')
def odd_data(ctx):
    """Reading accepts the triples that can be assigned, unaltered"""
    i = ctx.pick('i', 3)
    vals = [0, 128, 255]
    vals[i] = any_value(ctx, 'v', 'ifcsn', ints=300, maxlen=1)

    class A(p.HasProperties):
        c = p.Color('c')
    oka, a = attempt(lambda: A(c=list(vals)))
    okb, b = attempt(A.deserialize, {'c': list(vals)})
    ctx.check(oka == okb, 'read exactly when it could be assigned')
    if okb:
        ctx.check(b.c == tuple(vals), 'as written')
