"""C25 computational tasks"""
import sys

import properties as p
from properties.extras import (BaseInput, BaseOutput, BaseTask,
                               PermanentTaskFailure, TaskException,
                               TemporaryTaskFailure)
from properties.extras.task import TaskStatus
from harness.common import Boom, any_value, exact
from harness.reg import attempt, scenario

BOUNDS = ('tasks with symbolic inputs, outputs and validators of both, failing '
          'at any stage in any way; status reports with any progress and '
          'message; two calls of one task')
ASSUMPTIONS = ['text up to 3 characters, numbers on a grid of 1/64 for '
               'progress and integers elsewhere']
WITNESSES = ['done', 'input-refused', 'input-invalid', 'run-failed',
             'wrong-output', 'output-invalid', 'process-failed', 'reported',
             'no-progress', 'status-refused', 'unknown-input']

FAILURES = [TemporaryTaskFailure, PermanentTaskFailure, TaskException, Boom]


class Out(object):
    """Stands in for the output stream"""

    def __init__(self):
        self.parts = []

    def write(self, text):
        self.parts.append(text)

    def flush(self):
        pass

    def text(self):
        r = ''
        for x in self.parts:
            r = r + x
        return r


def make_task(log, plan):
    """A task that keeps a log of its stages and follows a plan"""

    class Task(BaseTask):

        class Input(BaseInput):
            a = p.Integer('a', min=-9)
            b = p.Integer('b', default=1)
            w = p.String('w', required=False, change_case='upper')

            @p.validator
            def _v(self):
                log.append(('valid-in', self))
                return plan.get('valid-in', True)

        class Output(BaseOutput):
            value = p.Integer('v', max=9)

            @p.validator
            def _v(self):
                log.append(('valid-out', self))
                return plan.get('valid-out', True)

        def run(self, input_obj):
            log.append(('run', input_obj))
            if plan.get('run') is not None:
                raise plan['run']
            if 'output' in plan:
                return plan['output'](self)
            return self.Output(value=input_obj.a + input_obj.b)

        if plan.get('process'):
            def process_output(self, output_obj):
                log.append(('process', output_obj))
                if plan['process'] == 'fail':
                    raise Boom()
                return output_obj
    return Task


def stages(log):
    """Stages gone through, repeated validation merged"""
    out = []
    for name, _ in log:
        if not out or out[-1] != name:
            out.append(name)
    return out


@scenario('C25', weight=4)
def call(ctx):
    """Input made, validated, run once, output validated, processed once"""
    log, plan = [], {}
    a = any_value(ctx, 'a', 'ifbsnl', ints=64, q=2, m=16, maxlen=1,
                  alphabet='19')
    b = ctx.int('b', -64, 64)
    has_b = ctx.flag('has.b')
    vin = ctx.flag('refuse.in')
    if vin:
        plan['valid-in'] = False
    runs = ctx.pick('run', 4)
    if runs == 1:
        plan['run'] = FAILURES[ctx.pick('failure', 4)]()
    if runs == 2:
        vout = ctx.flag('refuse.out')
        if vout:
            plan['valid-out'] = False
    if runs == 3:
        plan['process'] = ['fail', 'keep'][ctx.pick('process', 2)]
    Task = make_task(log, plan)
    args = {'a': a}
    if has_b:
        args['b'] = b
    if ctx.flag('unknown'):
        ctx.cover('unknown-input')
        args['zz'] = ctx.int('zz')
    before = dict(args)
    ok, got = attempt(Task(), **args)
    names = stages(log)
    ctx.check(exact(args, before), 'arguments kept')
    ctx.check(len([x for x in log if x[0] == 'run']) <= 1, 'run once')
    ctx.check(len([x for x in log if x[0] == 'process']) <= 1,
              'processed once')
    # what the input should be
    iok, want = attempt(lambda: p.Integer('', min=-9).validate(
        None, p.Integer.from_json(a)) if a is not None else None)
    if not iok:
        ctx.cover('input-refused')
        ctx.check(not ok and isinstance(got, (ValueError, TypeError)),
                  'refused input')
        ctx.check(names == [], 'nothing started')
        return
    if a is None:
        ctx.cover('input-invalid')
        ctx.check(not ok and isinstance(got, p.ValidationError),
                  'missing input')
        ctx.check('run' not in names, 'not run')
        return
    if vin:
        ctx.cover('input-invalid')
        ctx.check(not ok and isinstance(got, p.ValidationError),
                  'invalid input')
        ctx.check(names == ['valid-in'], 'not run')
        return
    inp = log[0][1]
    ctx.check(isinstance(inp, Task.Input), 'input class')
    ctx.check(inp.a == want and inp.b == (b if has_b else 1) and
              inp.w is None, 'input values')
    run = [x for x in log if x[0] == 'run']
    ctx.check(len(run) == 1 and run[0][1] is inp, 'run got the valid input')
    if runs == 1:
        ctx.cover('run-failed')
        ctx.check(not ok and got is plan['run'], 'failure of the run')
        ctx.check(names == ['valid-in', 'run'], 'stopped')
        return
    total = want + (b if has_b else 1)
    if total > 9:
        ctx.cover('run-failed')
        ctx.check(not ok and isinstance(got, p.ValidationError) and
                  names == ['valid-in', 'run'], 'output refused')
        return
    if runs == 2 and vout:
        ctx.cover('output-invalid')
        ctx.check(not ok and isinstance(got, p.ValidationError),
                  'invalid output')
        ctx.check(names == ['valid-in', 'run', 'valid-out'], 'stopped')
        return
    if runs == 3 and plan['process'] == 'fail':
        ctx.cover('process-failed')
        ctx.check(not ok and isinstance(got, Boom), 'failure of processing')
        ctx.check(names == ['valid-in', 'run', 'valid-out', 'process'],
                  'all stages')
        return
    ctx.cover('done')
    ctx.check(ok, 'done')
    if runs == 3:
        ctx.check(names == ['valid-in', 'run', 'valid-out', 'process'],
                  'all stages')
        ctx.check(got is log[-1][1] and isinstance(got, Task.Output) and
                  got.value == total, 'processed output')
    else:
        ctx.check(names == ['valid-in', 'run', 'valid-out'], 'all stages')
        ctx.check(got == {'success': True, 'log': '', 'value': total},
                  'result')


@scenario('C25', weight=2)
def outputs(ctx):
    """Only valid outputs of the output class get through"""
    log, plan = [], {}
    v = ctx.int('v')
    k = ctx.pick('k', 9)
    succ = ctx.bool('success')
    text = ctx.str('log', 2)
    plain = any_value(ctx, 'plain', 'ifbsnldeo', ints=64, q=2, m=16,
                      maxlen=2) if k == 8 else None

    class Other(BaseOutput):
        other = p.Integer('other')

    class Foreign(p.HasProperties):
        value = p.Integer('v')

    def output(self):
        if k == 0:
            return self.Output(value=v, success=succ, log=text)
        if k == 1:
            return self.Output(success=succ)
        if k == 2:
            return BaseOutput(success=succ, log=text)
        if k == 3:
            return Other(other=v)
        if k == 4:
            return Other()
        if k == 5:
            return Foreign(value=v)
        if k == 6:
            return self.Input(a=v)
        if k == 7:
            return self.Output
        return plain
    plan['output'] = output
    plan['process'] = 'keep'
    Task = make_task(log, plan)
    ctx.assume(v > -9)
    ok, got = attempt(Task(), a=1)
    if k == 0 and v > 9:
        ctx.check(not ok and isinstance(got, p.ValidationError), 'refused')
        return
    fine = k in (0, 2, 3)
    ctx.check(ok == fine, 'through exactly when a valid output')
    if ok:
        ctx.cover('done')
        ctx.check([x for x in log if x[0] == 'process'] == [
            ('process', got)], 'processed once')
        ctx.check(k == 3 or got.success == succ, 'success')
        ctx.check(k == 3 or got.log == text, 'log')
        return
    ctx.cover('wrong-output' if k >= 5 else 'output-invalid')
    ctx.check(isinstance(got, p.ValidationError), 'kind of error')
    ctx.check('process' not in stages(log), 'not processed')


@scenario('C25', weight=2)
def default_result(ctx):
    """Unless processed otherwise the result is the stored form of the
    output without its class"""
    v, n = ctx.int('v'), ctx.int('n')
    text = ctx.str('log', 2)
    succ = ctx.bool('s')

    class Part(p.HasProperties):
        n = p.Integer('n')

    class Task(BaseTask):
        class Input(BaseInput):
            part = p.Instance('part', Part)
            many = p.List('many', p.Integer(''), default=list)

        class Output(BaseOutput):
            part = p.Instance('part', Part)
            many = p.List('many', p.Integer(''))
            none = p.Integer('none', required=False)

        def run(self, input_obj):
            return self.Output(part=input_obj.part, many=input_obj.many,
                               success=succ, log=text)
    part = {'n': n} if ctx.flag('plain') else Part(n=n).serialize()
    ok, got = attempt(Task(), part=part, many=[v, n])
    ctx.cover('done')
    ctx.check(ok, 'done')
    ctx.check(got == {'part': {'n': n}, 'many': [v, n], 'success': succ,
                      'log': text}, 'result')
    ctx.check(BaseTask().process_output(BaseOutput(log=text)) ==
              {'success': True, 'log': text}, 'by itself')


@scenario('C25', weight=2)
def calls_are_independent(ctx):
    """A call leaves nothing behind for the next one"""
    x, y = ctx.int('x'), ctx.int('y')
    fail = [ctx.flag('fail0'), ctx.flag('fail1')]
    seen = []

    class Task(BaseTask):
        class Input(BaseInput):
            a = p.Integer('a', default=7)
            many = p.List('many', p.Integer(''), default=list)

        class Output(BaseOutput):
            value = p.Integer('v')

        def run(self, input_obj):
            seen.append(input_obj)
            input_obj.many.append(5)
            if fail[len(seen) - 1]:
                raise Boom()
            return self.Output(value=input_obj.a + len(input_obj.many))
    t = Task()
    given = {'a': x, 'many': [y]}
    ok, got = attempt(t, **given)
    ctx.check(ok != fail[0] and (not ok or got['value'] == x + 2), 'first')
    ctx.check(given == {'a': x, 'many': [y]}, 'arguments kept')
    ok, got = attempt(t if ctx.flag('same') else Task())
    ctx.check(ok != fail[1] and (not ok or got['value'] == 8), 'second')
    ctx.check(len(seen) == 2 and seen[0] is not seen[1], 'own inputs')
    ctx.check(seen[0].a == x and seen[0].many == [y, 5], 'first kept')


@scenario('C25', weight=2)
def unfinished(ctx):
    """A task without an execution cannot be called; empty inputs and
    outputs are fine"""
    v = ctx.int('v')

    class Task(BaseTask):
        pass

    class Empty(BaseTask):
        def run(self, input_obj):
            return BaseOutput(success=v > 0)
    for cls in (BaseTask, Task):
        ok, got = attempt(cls(), a=v) if ctx.flag(cls.__name__) else \
            attempt(cls())
        ctx.check(not ok and isinstance(got, NotImplementedError),
                  'nothing to run')
    ok, got = attempt(Empty(), a=v)
    ctx.check(ok and got == {'success': v > 0, 'log': ''}, 'empty')
    for e in (TemporaryTaskFailure, PermanentTaskFailure):
        ctx.check(issubclass(e, TaskException), 'failures')
    ctx.check(not issubclass(TemporaryTaskFailure, PermanentTaskFailure) and
              not issubclass(PermanentTaskFailure, TemporaryTaskFailure),
              'told apart')


@scenario('C25', weight=4)
def report(ctx):
    """A status report is one line with name, percent and message"""
    k = ctx.pick('kind', 4)
    msg = ctx.str('msg', 3, minlen=0) if ctx.flag('has.msg') else None
    has = ctx.flag('has.progress')
    if has:
        prog = any_value(ctx, 'prog', 'ifb', ints=3, q=6, m=2)
    status = {}
    if has:
        status['progress'] = prog
    if msg is not None:
        status['message'] = msg

    class Heavy(BaseTask):
        pass
    pok = not has or 0 <= prog <= 1
    if k == 1 or k == 2:
        if not pok:
            return
        status = TaskStatus(**status)
    if k == 2:
        class Mine(TaskStatus):
            extra = p.Integer('e', default=3)
        s = Mine()
        if has:
            s.progress = prog
        if msg is not None:
            s.message = msg
        status = s
    if k == 3:
        status = any_value(ctx, 'status', 'ifbsnleo', ints=3, q=2, m=2,
                           maxlen=2)
        pok = False
    out = Out()
    old = sys.stdout
    sys.stdout = out
    try:
        ok, got = attempt(Heavy().report_status, status)
    finally:
        sys.stdout = old
    text = out.text()
    ctx.check(ok == pok, 'reported exactly when valid')
    if not ok:
        ctx.cover('status-refused')
        ctx.check(isinstance(got, ValueError) and text == '',
                  'refused')
        return
    ctx.cover('reported')
    ctx.check(got is None, 'no result')
    msg = msg or ''
    if not has:
        ctx.cover('no-progress')
        ctx.check(text.startswith('Heavy |') and text.endswith(
            ' | ' + msg + '\n'), 'line')
        return
    ctx.check(len(text) == 16 + len(msg), 'one line')
    ctx.check(text[:7] == 'Heavy |' and text[11:] == '% | ' + msg + '\n',
              'name and message')
    num = text[7:11].strip()
    ctx.check(text[7:11] == num.rjust(4), 'aligned')
    val = int(num)
    ctx.check(2 * val - 1 <= 200 * prog <= 2 * val + 1, 'nearest percent')


@scenario('C25', weight=2)
def called_alike(ctx):
    """Every call makes its own input, also when called alike, and returns
    what processing the output returns"""
    v, w = ctx.int('v', -9, 9), ctx.int('w', -9, 9)
    k = ctx.pick('result', 6)
    result = [None, 0, '', {}, False, [v]][k]
    seen = []
    many = ctx.flag('many')
    override = ctx.flag('override')

    class Task(BaseTask):
        class Input(BaseInput):
            a = p.Integer('a', default=v)
            many = p.List('many', p.Integer(''), required=False)

        class Output(BaseOutput):
            value = p.Integer('v')

        def run(self, input_obj):
            seen.append(input_obj)
            return self.Output(value=input_obj.a)
        if override:
            def process_output(self, output_obj):
                seen.append(output_obj)
                return result
    t = Task()
    kw = {}
    if ctx.flag('given'):
        kw['a'] = w
    if many:
        kw['many'] = [v, w]
    want = w if 'a' in kw else v
    inputs = []
    for i in range(2):
        ok, got = attempt(t, **kw)
        ctx.cover('done')
        ctx.check(ok, 'done')
        ctx.check(exact(got, result) if override else
                  got == {'success': True, 'log': '', 'value': want},
                  'result')
        inputs.append(seen[0])
        ctx.check(len(seen) == 1 + override and seen[0].a == want, 'once')
        if many:
            ctx.check(seen[0].many == [v, w] and
                      seen[0].many is not kw['many'], 'own list')
        del seen[:]
    ctx.check(inputs[0] is not inputs[1], 'own inputs')


@scenario('C25')
def nothing_given(ctx):
    """Inputs are validated also when nothing is given"""
    req = ctx.flag('req')
    deft = ctx.flag('default')
    low = ctx.int('low', -9, 9)
    given = ctx.pick('given', 2)
    ran = []
    kw = {'default': 1} if deft else {}

    class Task(BaseTask):
        class Input(BaseInput):
            a = p.Integer('a', required=req, **kw)

            @p.validator
            def check(self):
                if self.a is not None and self.a < low:
                    raise p.ValidationError('low')

        def run(self, input_obj):
            ran.append(input_obj.a)
            return BaseOutput()
    args = [{}, {'a': 2}][given]
    have = 2 if given else 1 if deft else None
    good = not req if have is None else have >= low
    ok, got = attempt(Task(), **args)
    ctx.check(ok == good, 'run exactly when valid')
    ctx.check(len(ran) == int(good), 'run exactly when valid')
    if not ok:
        ctx.cover('input-invalid')
        ctx.check(isinstance(got, p.ValidationError), 'kind of error')


@scenario('C25', weight=2)
def nothing_returned(ctx):
    """A result that is no output object is refused, also if the output needs
    no values"""
    v = any_value(ctx, 'v', 'nibsld', ints=64, maxlen=1, alphabet='a')
    own = ctx.flag('own')
    processed = []

    class Task(BaseTask):
        if own:
            class Output(BaseOutput):
                value = p.Integer('', required=False)
                other = p.Integer('', default=1)

        def run(self, input_obj):
            return v

        def process_output(self, output_obj):
            processed.append(output_obj)
            return output_obj
    ok, got = attempt(Task())
    ctx.cover('wrong-output')
    ctx.check(not ok and isinstance(got, (TaskException, ValueError,
                                          TypeError)), 'refused')
    ctx.check(processed == [], 'not processed')


@scenario('C25', weight=2)
def empty_inputs(ctx):
    """Inputs given as zero, empty or false are the inputs, not defaults"""
    n = ctx.int('n', 0, 2)
    s = ctx.str('s', 1, 'a')
    b = ctx.bool('b')
    many = [n] * ctx.pick('len', 2)
    seen = []

    class Task(BaseTask):
        class Input(BaseInput):
            n = p.Integer('', default=7)
            s = p.String('', default='text')
            b = p.Boolean('', default=True)
            many = p.List('', p.Integer(''), default=lambda: [1, 2])

        class Output(BaseOutput):
            n = p.Integer('', default=7)
            s = p.String('', default='text')
            b = p.Boolean('', default=True)
            many = p.List('', p.Integer(''), default=lambda: [1, 2])

        def run(self, input_obj):
            seen.append(input_obj)
            return self.Output(n=input_obj.n, s=input_obj.s, b=input_obj.b,
                               many=input_obj.many)
    given = {'n': n, 's': s, 'b': b, 'many': many}
    want = {'n': 7, 's': 'text', 'b': True, 'many': [1, 2]}
    for k in sorted(given):
        if ctx.flag('give ' + k):
            want[k] = given[k]
        else:
            del given[k]
    ok, got = attempt(Task(), **given)
    ctx.check(ok, 'done')
    ctx.cover('done')
    ctx.check(all(exact(getattr(seen[0], k), want[k]) if k != 'many' else
                  seen[0].many == want[k] for k in want), 'inputs')
    ctx.check(all(got[k] == want[k] for k in want), 'outputs')


@scenario('C25', weight=2)
def names_of_classes(ctx):
    """No argument chooses the class of the input"""
    a = ctx.int('a', -9, 9)
    given = ctx.choice('given', ['Input', 'Other', 'Nobody', ''])
    seen = []

    class Task(BaseTask):
        class Input(BaseInput):
            a = p.Integer('', min=0)

        class Output(BaseOutput):
            value = p.Integer('')

        def run(self, input_obj):
            seen.append(input_obj)
            return self.Output(value=input_obj.a)

    class Other(Task.Input):
        a = p.Integer('')
    ok, got = attempt(Task(), **{'a': a, '__class__': given})
    ctx.check(ok == (a >= 0), 'run exactly when the input is valid')
    if ok:
        ctx.check(type(seen[0]) is Task.Input and len(seen) == 1,
                  'its own input')
        ctx.check(got['value'] == a, 'result')
    else:
        ctx.check(list(seen) == [], 'not run')


@scenario('C25')
def calculated_output(ctx):
    """What is returned are the values of the output, not what is calculated
    from them"""
    n = ctx.int('n', -9, 9)
    good = ctx.bool('good')
    kw = {}
    if ctx.flag('reported'):
        kw = {'success': good, 'log': 'text'}

    class Task(BaseTask):
        class Output(BaseOutput):
            value = p.Integer('')

            @p.Integer('')
            def double(self):
                return self.value * 2

        def run(self, input_obj):
            return self.Output(value=n, **kw)
    ok, got = attempt(Task())
    ctx.check(ok, 'done')
    want = Task.Output(value=n, **kw).serialize(include_class=False)
    ctx.check(got == want and 'double' not in got and
              got['value'] == n, 'the values')
