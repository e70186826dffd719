"""C31 Console prompts return exactly the number entered."""
import io
import math
import sys

from hypothesis import strategies as st

from blmath import console
from blmath.value import Value
from .. import units_ref as U
from ..core import call, fail, label, nontrivial, require, short
from ..registry import sub

RULE = 'Sessions of up to 4 prompts over one stream of up to 20 lines: numbers in every form float reads (and padded with blanks), texts which are not numbers, empty lines; a model which reads the lines one by one predicts each result and how many lines each prompt takes; non-trivial when a prompt was repeated, or an empty entry was accepted.'
ASSUMPTIONS = ['standard input and output are replaced by streams in memory, at the level of sys.stdin and sys.stdout', 'the stream ends after the session', 'trailing blanks and colons of a prompt may be shown otherwise']

NUMBERS = ['0', '0.0', '-0', '1', '12', '-3', '+4', '2.5', '.5', '5.', '1e3', '-1E-3', '1_000', '007', '72.40', '1e400', 'inf', '-inf', 'nan', '1e-400', '0.1', '123456789.123456789', '3.14', '\u0663', '100', '25.4']
WORDS = ['abc', 'x', '1,5', '1.5cm', '12 cm', '--3', '1e', '0x10', '1 2', 'no', 'None', 'q', 'ten', '1.2.3', '$5', '-', '.', 'e5', '5%', '1,', '2.5;', '3!', '7:', '12 .', '1.,', '(4)', '[5', '1.5.', '6-', '8?', '#9', '=3', '4/5', '1\u20442', '10k', '1e3e', '.5.', '1-2', '1 000', '12"', '5\'', '1__0', '_1', '1j', "'", '\u20ac', 'quit']
EMPTY = ['', '', ' ', '\t', '  \t ']
PROMPTS = ['Chest girth', 'Height: ', 'How many? ', 'Weight (kg):', 'Enter a measurement\t', 'Zahl \u00fc', '>', 'Depth {}', 'Rate %s %d: ']
LABELS = ['Chest girth', 'Height', 'weight of it', 'Gr\u00f6\u00dfe', 'A{}', 'B%s', 'in {units}', '{label} of it', '{0}', '{1}', '%(units)s', '${units}', '{{}}', 'a\\1', '{prompt}']


@st.composite
def session(draw):
    calls = []
    for _ in range(draw(st.integers(1, 4))):
        fn = draw(st.sampled_from(['float', 'value', 'value']))
        allow = draw(st.sampled_from([None, False, True, True]))
        lines = []
        for _ in range(draw(st.integers(0, 4))):
            lines.append(draw(st.sampled_from(WORDS)) if draw(st.booleans()) or allow else draw(st.sampled_from(EMPTY)))
        last = draw(st.sampled_from(EMPTY)) if allow and draw(st.integers(0, 2)) == 0 else draw(st.one_of(st.sampled_from(NUMBERS), st.sampled_from(NUMBERS), st.floats(allow_nan=False).map(repr), st.integers(-10 ** 6, 10 ** 6).map(str)))
        if draw(st.integers(0, 4)) == 0:
            last = draw(st.sampled_from([' ', '\t'])) + last + draw(st.sampled_from(['', ' ', ' \t']))
        lines.append(last)
        calls.append({'fn': fn, 'allow': allow, 'lines': lines, 'prompt': draw(st.sampled_from(PROMPTS)), 'label': draw(st.sampled_from(LABELS)), 'units': draw(st.sampled_from(U.ALL)), 'kw': draw(st.booleans())})
    return {'calls': calls, 'end': draw(st.sampled_from(['\n', '\n', '']))}


def number(s):
    try:
        return float(s.strip())
    except ValueError:
        return None


@sub('C31', session(), 12000, purity=False)
def sessions(c):
    lines = [x for k in c['calls'] for x in k['lines']]
    source = io.StringIO('\n'.join(lines) + c['end'])
    if not c['end'] and not lines[-1]:
        source = io.StringIO('\n'.join(lines) + '\n')
    at = 0
    old = sys.stdin, sys.stdout, sys.stderr
    for k in c['calls']:
        out = io.StringIO()
        sys.stdin, sys.stdout = source, out
        try:
            if k['fn'] == 'float':
                args = (k['prompt'],)
                fn = console.input_float
            else:
                args = (k['label'], k['units'])
                fn = console.input_value
            if k['allow'] is None:
                r = call(fn, *args)
            elif k['kw']:
                r = call(fn, *args, allow_empty=k['allow'])
            else:
                r = call(fn, *(args + (k['allow'],)))
        except EOFError:
            fail('%s read past the entry %r of %s', fn.__name__, k['lines'][-1], short(k['lines']))
        finally:
            sys.stdin, sys.stdout, sys.stderr = old
        taken, want = 0, None
        while True:
            s = lines[at]
            at += 1
            taken += 1
            if not s.strip():
                if k['allow']:
                    break
            elif number(s) is not None:
                want = number(s)
                break
        rest = source.getvalue()[source.tell():]
        left = sum(1 for _ in io.StringIO(rest))
        # a last empty line without its end is not a line
        require(left == len(lines) - at, '%s took another number of entries: %d are left, expected %d of %s', fn.__name__, left, len(lines) - at, short(lines))
        if want is None:
            require(r is None, '%s returned %s for an empty entry', fn.__name__, short(r))
            label('empty')
        else:
            if k['fn'] == 'value':
                require(isinstance(r, Value), 'input_value returned %s for %r', short(r), lines[at - 1])
                require(r.units == k['units'], 'input_value returned units %s, expected %s', short(r.units), k['units'])
                r = r.value
            require(isinstance(r, float) and not isinstance(r, bool), '%s returned %s for %r', fn.__name__, short(r), lines[at - 1])
            require(r == want and math.copysign(1, r) == math.copysign(1, want) or math.isnan(r) and math.isnan(want), '%s returned %r for %r', fn.__name__, r, lines[at - 1])
            label(k['fn'])
        text = out.getvalue()
        shown = k['prompt'].rstrip(' \t:') if k['fn'] == 'float' else None
        if shown is not None:
            require(text.count(shown) >= taken, 'the prompt %r is shown %d times for %d entries: %r', shown, text.count(shown), taken, text)
        else:
            a, b = text.find(k['label']), text.rfind(k['units'])
            require(a < b or k['label'] in k['units'] or k['units'] in k['label'], 'the prompt %r shows the units before the label %r', text, k['label'])
            require(text.count(k['label']) >= taken and text.count(k['units']) >= taken, 'label %r and units %r are not shown for each of %d entries: %r', k['label'], k['units'], taken, text)
        label('entries: %d' % min(taken, 4))
        nontrivial(taken > 1 or want is None)
