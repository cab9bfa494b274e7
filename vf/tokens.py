"""Textual tokens: an abstract scalar or opaque string that is formatted into
text becomes a token, so that string building, file streams, JSON and YAML
documents stay ordinary text and the abstract value can be read back."""
import re
from . import symb
from .symb import Sym
from .opq import Opq

L, R = '\u27e8', '\u27e9'
_syms, _by_key = [], {}
_opqs, _oby = [], {}
TOK = re.compile(L + r'([SO])(\d+)(?:;([^' + R + r']*))?' + R)


def sym_token(s, spec=''):
    k = (s.key(), s.kind)
    i = _by_key.get(k)
    if i is None:
        i = len(_syms)
        _by_key[k] = i
        _syms.append(Sym(s.t, s.kind, False))
    return '%sS%d%s%s' % (L, i, ';' + spec if spec else '', R)


def opq_token(o):
    k = o.vf_key()
    i = _oby.get(k)
    if i is None:
        i = len(_opqs)
        _oby[k] = i
        _opqs.append(o)
    return '%sO%d%s' % (L, i, R)


# formats that reproduce the number
EXACT = ('', 'j', 'r', '.17g', '.16e', '.17e', '.18e')


def value(m):
    v = (_syms if m.group(1) == 'S' else _opqs)[int(m.group(2))]
    f = m.group(3) or ''
    if m.group(1) == 'S' and f not in EXACT and \
            not f.lstrip('0123456789<>^+ -') in EXACT and not v.isnan_:
        # rounded by the format
        return Sym.fn('rounded', v, f.lstrip('0123456789<>^+ -'))
    return v


def parse(text):
    """The abstract value if the whole (stripped) text is one token."""
    m = TOK.fullmatch(text.strip())
    if m is None:
        return None
    return value(m)


def has(text):
    return L in text


def pretty(text):
    def f(m):
        return '<%s>' % (value(m),)
    return TOK.sub(f, text)
