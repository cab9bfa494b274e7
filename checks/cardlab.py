"""Shared helpers of the analyses of the SMEFTsim converter: cards are filled
abstractly, written as text in which abstract numbers are kept, and read back
as {(block, index): (value, number format, label)}."""
import re
from .clilab import *
from spec import smeftsim as T, smeft as S

W = 'wcxf/converters/smeftsim.py'
SETS = ['A', 'B']
SCHEMES = ['alpha', 'mw']
LAM = Sym.atom('Lambda', positive=True)
KEYS = T.keys()
LAYOUT = {m: T.layout(m) for m in SETS}
# coefficients without a place in the card
OTHER = {k: r for k, r in S.keys(mass=True).items() if k not in KEYS}


def atoms(ks=None, prefix='C:', allreal=False):
    return {k: real(prefix + k) if allreal or r else cplx(prefix + k)
            for k, r in (KEYS if ks is None else ks).items()}


def vals(d, as_mapping=lambda k: False):
    """WCxf values"""
    out = {}
    for k, v in d.items():
        z = lift(v)
        if as_mapping(k):
            out[k] = {'Re': z.real if isinstance(v, Sym) else
                      complex(v).real,
                      'Im': (z.imag if z.kind == 'c' else 0.0)
                      if isinstance(v, Sym) else complex(v).imag}
        elif isinstance(v, complex):
            out[k] = {'Re': v.real, 'Im': v.imag}
        elif isinstance(v, Sym) and not z.is_real():
            out[k] = {'Re': z.real, 'Im': z.imag}
        else:
            out[k] = v
    return out


def lit(x):
    return lift(x) if isinstance(x, float) else x


class Row:
    def __init__(self, value, fmt, label, text):
        self.value, self.fmt, self.label, self.text = value, fmt, label, text


NUM = re.compile(r'[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?')


def number(t):
    """(value, format) of a written number; value None if it is none"""
    m = tokens.TOK.fullmatch(t)
    if m and m.group(1) == 'S':
        v = tokens._syms[int(m.group(2))]
        return (None if v.kind == 'c' else v), m.group(3) or ''
    if NUM.fullmatch(t):
        return float(t), None
    return None, None


def read(ctx, text, what, where):
    """LHA text -> {block: {index tuple: Row}}; malformed lines are reported"""
    out = {}
    cur = None
    for line in text.split('\n'):
        body, h, label = line.partition('#')
        f = body.split()
        if not f:
            continue
        if f[0].lower() == 'block':
            cur = ' '.join(f[1:])
            ctx.ok(cur not in out, where, '%s: block %s appears twice'
                   % (what, cur))
            out.setdefault(cur, {})
        elif f[0].lower() == 'decay':
            v, fm = number(f[2]) if len(f) == 3 else (None, None)
            if ctx.ok(v is not None, where, '%s: malformed line %r'
                      % (what, line)):
                d = out.setdefault('DECAY', {})
                ctx.ok((f[1],) not in d, where, '%s: second DECAY %s'
                       % (what, f[1]))
                d[(f[1],)] = Row(v, fm, label.strip(), line)
        elif cur is None:
            ctx.violation(where, '%s: line outside blocks: %r' % (what, line))
        else:
            try:
                idx = tuple(int(x) for x in f[:-1])
            except ValueError:
                ctx.violation(where, '%s: malformed line %r'
                              % (what, tokens.pretty(line)))
                continue
            v, fm = number(f[-1])
            ctx.ok(v is not None, where, '%s: block %s %s is not a number: %s'
                   % (what, cur, idx, tokens.pretty(f[-1])))
            ctx.ok(idx not in out[cur], where, '%s: block %s has index %s '
                   'twice' % (what, cur, idx))
            out[cur][idx] = Row(v, fm, label.strip(), line)
    return out


LABEL = re.compile(r'(c[a-z]+\d?)(?:(abs|ph)(\d+|\d(?:x\d)+))?')


def parse_label(l):
    """(operator, part, flavour) that a row label names"""
    t = l.split()[0].lower() if l.split() else ''
    if t in ('lambda', 'lambdasmeft'):
        return 'Lambda', None, ()
    m = LABEL.fullmatch(t)
    if not m or m.group(1) not in T.NAMES:
        return None
    op = T.NAMES[m.group(1)]
    if m.group(2) is None:
        return op, None, ()
    return op, {'abs': 'Abs', 'ph': 'Ph'}[m.group(2)], \
        tuple(int(x) for x in m.group(3).replace('x', ''))


def element(op, fl, d):
    """(value of the tensor element, is the coefficient real)"""
    if not fl:
        return d.get(op, 0), True
    for i, c in sorted(S.orbit(op, fl), key=lambda t: t[1]):
        k = S.label(op, i)
        if k in KEYS:
            v = d.get(k, 0)
            if c:
                v = v.conjugate()
            return v, KEYS[k]
    raise KeyError((op, fl))


def fine(fmt):
    """a format with at least seven significant digits"""
    if fmt is None or fmt in tokens.EXACT:
        return True
    m = re.fullmatch(r'[<>^]?[-+ ]?\d*\.(\d+)([eEgG])', fmt)
    return bool(m) and int(m.group(1)) >= (6 if m.group(2) in 'eE' else 7)


def close(x, y, rel=1e-6):
    return abs(x - y) <= rel * abs(y) + 1e-300


def matches(row, exp, num=None):
    """whether a row has the expected number"""
    v = row.value
    if v is None:
        return True               # reported when read
    if isinstance(v, Sym):
        return same(v, lift(exp))
    if num is None:
        num = float(lift(exp).const_value()) if lift(exp).is_const() else None
    return num is not None and close(v, num)


def expected(op, part, fl, d, lam):
    """(form, number or None)"""
    import cmath
    from vf.npmodel import angle1
    if op == 'Lambda':
        return lift(lam), None
    v, isreal = element(op, fl, d)
    num = None
    if not isinstance(v, Sym) and not isinstance(lam, Sym):
        z = complex(v)
        num = cmath.phase(z) if part == 'Ph' else z.real * lam ** 2 \
            if isreal else abs(z) * lam ** 2
    z = lift(v)
    if part == 'Ph':
        return Sym(angle1(z).t, 'f'), num
    return (z.real if isreal else abs(z)) * lift(lam) ** 2, num


def coefficient_blocks(ms):
    return {b for b, i in LAYOUT[ms]}


def judge(ctx, what, blocks, ms, scheme, d, lam, where=W, zero=None):
    """compare the rows with the layout of the model set"""
    lay = LAYOUT[ms]
    n = 0
    for (b, i), (op, part, fl) in lay.items():
        row = blocks.get(b, {}).get(i)
        name = T.name(op) + (part or '') + ''.join(map(str, fl))
        if not ctx.ok(row is not None, where, '%s: no entry for %s in block '
                      '%s, index %s' % (what, name, b, i)):
            continue
        n += 1
        p = parse_label(row.label)
        ctx.ok(p is not None and p[:2] == (op, part) and
               p[2] == fl, where,
               '%s: entry %s of block %s is labelled %r, not %s'
               % (what, i, b, row.label, name))
        ctx.ok(fine(row.fmt), where, '%s: %s is written with format %r'
               % (what, name, row.fmt))
        e, num = expected(op, part, fl, d, lam)
        ctx.ok(matches(row, e, num), where, '%s: %s in block %s, index %s is %s, '
               'expected %s' % (what, name, b, i,
                                tokens.pretty(row.text.split('#')[0].split()[
                                    -1]) if row.text else row.value, e))
    extra = [(b, i) for b in blocks for i in blocks[b]
             if b in coefficient_blocks(ms) and (b, i) not in lay]
    mw = [x for x in extra
          if blocks[x[0]][x[1]].label.split()[:1] == ['MW0']]
    for x in extra:
        if x not in mw:
            ctx.violation(where, '%s: entry %s of block %s belongs to no '
                          'parameter' % (what, x[1], x[0]))
    want = ms == 'A' and scheme == 'mw'
    if ctx.ok(len(mw) == want, where, '%s: %d entries MW0' % (what, len(mw))) \
            and want:
        ctx.ok(mw[0] == ('FRBlock', (1475,)) and
               matches(blocks['FRBlock'][1475,], 80.387), where,
               '%s: entry MW0 is %s %s' % (
                   what, mw[0], blocks[mw[0][0]][mw[0][1]].text))
    return n


def fill(ctx, lab, wc, ms, scheme, lam):
    """(text, blocks' names) of a filled card"""
    m = lab.mod('wcxf.converters.smeftsim')
    card = lab.call(m.initialize_smeftsim_card, ms)
    r = lab.call(m.smeftsim_card_fill, card, wc, ms, lit(lam), scheme)
    return lab.call(lab.mod('pylha').dump, r, fmt='lha')


def make(lab, values, basis='Warsaw mass', eft='SMEFT'):
    return lab.call(lab.wcxf.WC, eft, basis, SCALE, values)
