"""C30 files and images"""
import base64
import io

import png

import properties as p
import properties.basic as basic
from harness.common import Thing, any_value, json_compatible
from harness.reg import attempt, scenario

BOUNDS = ('file-like stand-ins with every combination of the documented '
          'attributes and modes, names up to 3 symbolic characters, one fault '
          'of opening; images of 3 contents read from 4 positions')
ASSUMPTIONS = ['the file system is a stand-in: opening a name gives a file or '
               'one of the errors open documents',
               'image data is concrete; reading and checking PNG is left to '
               'pypng']
WITNESSES = ['accepted', 'bad-mode', 'closed', 'opened', 'not-opened',
             'deleted', 'refused-deletion', 'image', 'not-image', 'moved']

MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab',
         'ab+']


class Stream(object):
    """A file-like object without the optional attributes"""
    def __init__(self, data=b''):
        self.data, self.pos, self.closes = data, 0, 0

    def read(self, n=-1):
        end = len(self.data) if n is None or n < 0 else self.pos + n
        out = self.data[self.pos:end]
        self.pos = min(len(self.data), max(self.pos, end))
        return out

    def seek(self, pos):
        self.pos = pos


class Pieces(Stream):
    """Gives less than asked for, as pipes and sockets do"""
    def read(self, n=-1):
        return super(Pieces, self).read(min(n, 9) if n and n > 0 else n)


class Closable(Stream):
    closed = False

    def close(self):
        self.closed = True
        self.closes += 1


class ClosablePieces(Closable, Pieces):
    pass


def picture(level=3):
    out = io.BytesIO()
    png.from_array([[level, 7], [1, 2]], 'L').write(out)
    return out.getvalue()


class Unreadable(object):
    def seek(self, pos):
        pass


class Unseekable(object):
    def read(self):
        return b''


@scenario('C30', weight=2)
def acceptance(ctx):
    """Accepted exactly when an open file in a valid mode"""
    mode = ctx.choice('mode', [None, 'r', 'rb', 'wb+'])
    more = ctx.choice('valid', [(), ('w',), ('a', 'r+')])
    kw = {'valid_modes': (mode,) + more} if mode and more else {}
    prop = p.File('f', mode, **kw)
    shape = ctx.choice('shape', [Stream, Closable, Unreadable, Unseekable,
                                 Thing])
    f = shape()
    has_mode = ctx.flag('has mode')
    if has_mode:
        f.mode = ctx.choice('opened', ['r', 'w', 'rb', 'a', 'wb+', 'r+',
                                       None, '', 0])
    closed = shape is Closable and ctx.flag('closed')
    if closed:
        f.close()

    class Holder(p.HasProperties):
        f = prop
    h = Holder()
    ok, exc = attempt(setattr, h, 'f', f)
    valid = not has_mode or mode is None or \
        f.mode in (mode,) + (more if kw else ())
    good = shape in (Stream, Closable) and valid and not closed
    ctx.check(ok == good, 'accepted exactly when open and of a valid mode')
    if ok:
        ctx.cover('accepted')
        ctx.check(h.f is f and not f.closes, 'the file itself, still open')
        ctx.check(p.File('').equal(f, h.f) and not
                  p.File('').equal(f, shape()), 'equal only to itself')
        if shape is Closable:
            f.close()
            ctx.check(not attempt(h.validate)[0], 'closed files are invalid')
        return
    ctx.cover('closed' if closed else 'bad-mode')
    ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
    ctx.check(h.f is None, 'nothing stored')


@scenario('C30', weight=2)
def names(ctx):
    """A name is opened once, in the mode given"""
    mode = ctx.choice('mode', [None] + MODES)
    calls = []
    fault = ctx.choice('fault', [
        None, IOError('no'), ValueError('embedded null byte'),
        TypeError('what'), FileNotFoundError(2, 'no'),
        UnicodeEncodeError('utf-8', 'x', 0, 1, 'surrogates'),
        IsADirectoryError(21, 'dir'), PermissionError(13, 'no')])
    made = Closable()
    made.mode = mode

    def fake_open(name, *a, **k):
        calls.append((name, a, k))
        if fault is not None:
            raise fault
        return made

    class Holder(p.HasProperties):
        f = p.File('f', mode)
    name = ctx.str('name', 3, 'a./\x00')
    h = Holder()
    basic.open = fake_open
    try:
        ok, exc = attempt(setattr, h, 'f', name)
    finally:
        del basic.open
    if mode is None:
        ctx.cover('not-opened')
        ctx.check(not ok and isinstance(exc, p.ValidationError) and not calls,
                  'names are refused without a mode')
        return
    ctx.check(len(calls) == 1 and calls[0][0] == name and
              calls[0][1:] in (((mode,), {}), ((), {'mode': mode})),
              'opened once')
    ctx.check(ok == (fault is None), 'accepted when it can be opened')
    if ok:
        ctx.cover('opened')
        ctx.check(h.f is made and not made.closes, 'open file')
    else:
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
        ctx.check(h.f is None, 'nothing stored')


@scenario('C30')
def deletion(ctx):
    """Deleting closes the file; a refused deletion does not"""
    class Holder(p.HasProperties):
        f = p.File('f')

        @p.validator('f')
        def guard(self, change):
            if refuse and change['value'] is p.undefined:
                raise ValueError('kept')
    refuse = False
    f = ctx.choice('kind', [Stream, Closable])()
    h = Holder()
    if ctx.flag('set'):
        h.f = f
    refuse = ctx.flag('refuse')
    before = h.f
    ok, exc = attempt(delattr, h, 'f')
    ctx.check(ok == (not refuse), 'deleted exactly when allowed')
    if ok:
        ctx.cover('deleted')
        ctx.check(h.f is None, 'gone')
        ctx.check(not isinstance(f, Closable) or f.closes == (
            1 if before is f else 0), 'closed')
    else:
        ctx.cover('refused-deletion')
        ctx.check(h.f is before and not f.closes, 'kept open')


@scenario('C30')
def replaced(ctx):
    """Refused values leave the file in place and open"""
    class Holder(p.HasProperties):
        f = p.File('f', 'r')
    h, f = Holder(), Closable()
    f.mode = 'r'
    h.f = f
    v = any_value(ctx, 'v', 'ifsnobltdx', maxlen=2, alphabet='a/')
    if isinstance(v, str):
        g = Stream()
        g.mode = 'w'
        v = g
    ok, exc = attempt(setattr, h, 'f', v)
    ctx.check(not ok and isinstance(exc, p.ValidationError), 'refused')
    ctx.check(h.f is f and not f.closes, 'kept')


@scenario('C30')
def configuration(ctx):
    """Only documented modes can be asked for"""
    mode = ctx.str('mode', 3, 'rwab+x')
    cls = ctx.choice('class', [p.File, p.ImagePNG])
    allowed = MODES if cls is p.File else ['rb', 'rb+', 'wb+', 'ab+']
    ok, exc = attempt(cls, 'f', mode)
    ctx.check(ok == (mode in allowed), 'mode')
    if not ok:
        ctx.check(isinstance(exc, TypeError), 'kind of error')
    one = ctx.str('one', 3, 'rwb+', minlen=1)
    base = 'rb+'
    both = ctx.flag('both')
    ok, exc = attempt(cls, 'f', base,
                      valid_modes=[one, base] if both else one)
    good = one in allowed and (both or one == base)
    ctx.check(ok == good, 'valid modes')
    if not ok:
        ctx.check(isinstance(exc, TypeError), 'kind of error')


@scenario('C30', weight=2)
def image(ctx):
    """An image becomes an own stream with all of its data"""
    given = ctx.choice('filename', ['a.png', 'b', None])

    class Holder(p.HasProperties):
        i = p.ImagePNG('i', **({'filename': given} if given else {}))

    data = picture()
    what = ctx.choice('what', ['file', 'image', 'bytes', 'text', 'other',
                               'short', 'empty', 'none', 'pieces'])
    h = Holder()
    if what == 'image':
        src = png.from_array([[3, 7], [1, 2]], 'L')
    else:
        content = {'file': data, 'bytes': data, 'text': 'abc', 'other':
                   b'GIF89a' + data, 'short': data[:4], 'empty': b'',
                   'none': data, 'pieces': data}[what]
        src = io.BytesIO(content) if what == 'bytes' else \
            ClosablePieces(content) if what == 'pieces' else Closable(content)
        if what == 'none':
            src.mode = 'r'
        at = ctx.choice('position', [0, 1, 8, len(content)])
        if at:
            ctx.cover('moved')
        src.seek(at)
        called = ctx.choice('named', ['no', 'other', 'alike'])
        if called != 'no':
            src.name = 'other.png' if called == 'other' else \
                given or 'texture.png'
    ok, exc = attempt(setattr, h, 'i', src)
    good = what in ('file', 'image', 'bytes', 'pieces')
    ctx.check(ok == good, 'accepted exactly when PNG')
    if not ok:
        ctx.cover('not-image')
        ctx.check(isinstance(exc, p.ValidationError), 'kind of error')
        ctx.check(h.i is None and not src.closes, 'nothing stored')
        return
    ctx.cover('image')
    got = h.i
    ctx.check(got is not src and got.name == (given or 'texture.png'),
              'own stream')
    ctx.check(got.tell() == 0 and got.read() == data, 'all of the image')
    got.seek(ctx.choice('reading', [0, 3, len(data)]))
    out = h.serialize()
    ctx.check(json_compatible(out), 'JSON')
    ctx.check(base64.b64decode(out['i'].split(',')[1]) == data,
              'written completely')
    ctx.check(got.tell() == 0 and got.read() == data, 'left at its start')
    back = Holder.deserialize(out)
    ctx.check(back.i.read() == data and back.i is not got and
              back.i.name == got.name, 'read back')
    ctx.check(h.serialize() == out, 'written again')


@scenario('C30')
def other_text(ctx):
    """Text that is no image is not read"""
    v = ctx.str('v', 3, 'da:,')
    ok, exc = attempt(p.ImagePNG.from_json, v)
    ctx.check(not ok and isinstance(exc, ValueError), 'refused')

    class Holder(p.HasProperties):
        i = p.ImagePNG('i')
    ok, exc = attempt(Holder.deserialize, {
        '__class__': 'Holder', 'i': 'data:image/png;base64,' +
        base64.b64encode(ctx.choice('data', [b'', b'GIF', picture()[:5]])
                         ).decode()})
    ctx.check(not ok and isinstance(exc, p.ValidationError), 'not an image')


@scenario('C30')
def checked_alone(ctx):
    """A property asked without an owner follows the same rules; a closed
    file is refused whether or not it has a name to open again"""
    mode = ctx.choice('mode', [None, 'r', 'rb'])
    f = Closable()
    f.name = ctx.str('name', 2, 'a./')
    if ctx.flag('has mode'):
        f.mode = ctx.choice('opened', ['r', 'rb', 'w', None])
    closed = ctx.flag('closed')
    if closed:
        f.close()
    calls = []

    class Holder(p.HasProperties):
        f = p.File('f', mode)
    how = ctx.pick('how', 3)
    h = Holder()
    basic.open = lambda *a, **k: calls.append(a) or Closable()
    try:
        if how == 0:
            ok, got = attempt(Holder._props['f'].validate, None, f)
        elif how == 1:
            ok, got = attempt(p.File('f', mode).validate, h, f)
        else:
            ok, got = attempt(setattr, h, 'f', f)
            got = h.f if ok else got
    finally:
        del basic.open
    valid = not hasattr(f, 'mode') or mode is None or f.mode == mode
    ctx.check(ok == (valid and not closed), 'same rules')
    ctx.check(calls == [], 'files are not opened again')
    if ok:
        ctx.cover('accepted')
        ctx.check(got is f and not f.closes, 'the file itself')
    else:
        ctx.check(isinstance(got, p.ValidationError), 'kind of error')


@scenario('C30')
def looking_again(ctx):
    """Checking or assigning an image again keeps it and where it is read"""
    data = picture()

    class Holder(p.HasProperties):
        i = p.ImagePNG('i')
    h, g = Holder(i=Stream(data)), Holder()
    got = h.i
    at = ctx.pick('at', 12)
    got.seek(at)
    how = ctx.pick('how', 5)
    if how == 0:
        ctx.check(h.validate(), 'valid')
    elif how == 1:
        h.i = got
        ctx.check(h.i is got, 'the same')
    elif how == 2:
        ctx.check(Holder._props['i'].validate(None, got) is got, 'the same')
    elif how == 3:
        ctx.check(p.equal(h, h), 'equal')
    else:
        g.i = got
        ctx.check(g.i is got, 'the same')
    ctx.check(got.tell() == at and got.read() == data[at:], 'not moved')


@scenario('C30')
def preamble_elsewhere(ctx):
    """Stored images begin with what says so"""
    pre = ctx.str('pre', 2, 'd: \n')
    good = p.ImagePNG.to_json(io.BytesIO(picture()))
    text = pre + good
    ok, back = attempt(p.ImagePNG.from_json, text)
    ctx.check(ok == (len(pre) == 0), 'read exactly when it begins so')
    if ok:
        ctx.check(back.read() == picture(), 'the image')
    else:
        ctx.check(isinstance(back, ValueError), 'kind of error')
