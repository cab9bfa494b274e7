"""Layout of the SMEFTsim parameter cards (flavour-general models, sets A and
B): which block and index belongs to which parameter, and the SM inputs of the
two electroweak input schemes.  Parameters are named (operator, part, flavour)
with part 'Abs', 'Ph' or None (real parameter without flavour)."""
from itertools import product
from . import smeft as S

H2 = {'Abs': '11 12 13 22 23 33', 'Ph': '12 13 23'}
SW = {'Abs': '1111 1122 1221 1133 1331 2222 2233 2332 3333 1112 1113 1123 '
      '1212 1213 1231 1222 1223 1232 1233 1313 1322 1332 1323 1333 2223 2323 '
      '3323',
      'Ph': '1112 1113 1123 1212 1213 1231 1222 1223 1232 1233 1313 1322 '
      '1332 1323 1333 2223 2323 3323'}
H4 = {'Abs': '1111 1112 1113 1123 1122 1133 1211 1212 1221 1213 1231 1222 '
      '1223 1232 1233 1311 1312 1313 1331 1321 1322 1332 1323 1333 2211 2212 '
      '2213 2222 2223 2233 2311 2312 2313 2321 2322 2323 2331 2332 2333 3311 '
      '3312 3313 3322 3333 3323'}
H4A = dict(H4, Ph='1112 1113 1123 1211 1212 1221 1213 1231 1222 1223 1232 '
           '1233 1311 1312 1313 1331 1321 1322 1332 1323 1333 2212 2213 2223 '
           '2311 2312 2313 2321 2322 2323 2331 2332 2333 3312 3313 3323')
H4B = dict(H4, Ph='1112 2212 1113 1123 1211 1212 1221 1213 1231 1222 1223 '
           '1232 1233 1311 1312 1313 1331 1321 1322 1332 1323 1333 2213 2223 '
           '2311 2312 2313 2321 2322 2323 2331 2332 2333 3323 3312 3313')
EEA = {'Abs': '1111 1122 1133 2222 2233 1112 3333 1123 1113 1213 1212 1232 '
       '1222 1313 1233 1323 1322 2223 1333 3323 2323',
       'Ph': '1112 1113 1123 1212 1213 1222 1232 1233 1313 1322 1323 1333 '
       '2223 2323 3323'}
EEB = {'Abs': '1111 2222 3333 1122 1133 2233 1212 1213 1232 1313 1323 2323 '
       '1112 1222 1233 1113 1322 1333 1123 2223 3323',
       'Ph': '1112 1113 1123 1212 1213 1323 1222 3323 1232 1233 1313 1322 '
       '1333 2223 2323'}

# groups of the block FRBlock in the order of their indices
A_GROUPS = [(o, 'Ph') for o in (
    'phil1 phil3 phie phiq1 phiq3 phiu phid ll qq1 qq3 uu dd ee lq1 lq3 eu ed '
    'ud1 ud8 le lu ld qe qu1 qd1 qu8 qd8').split()] + \
    [('Lambda', None)] + [(o, None) for o in (
        'G Gtilde W Wtilde phi phiBox phiD phiG phiGtilde phiW phiWtilde phiB '
        'phiBtilde phiWB phiWtildeB').split()] + \
    [(o, 'Abs') for o in (
        'phil1 phil3 phiq1 phiq3 phie phiu phid ll qq1 qq3 lq1 lq3 ee uu dd '
        'eu ed ud1 ud8 le lu ld qe qu1 qu8 qd1 qd8').split()]
B_GROUPS = [(o, p) for o in (
    'phil1 phil3 phiq1 phiq3 phiu phid phie ll qq1 qq3 lq1 lq3 uu dd ee ud1 '
    'ud8 eu ed qu1 qu8 qd1 qd8 le lu ld qe').split() for p in ('Abs', 'Ph')]
B_NEWCOUP = ('Lambda phiBox phiD phi phiB phiW phiWB phiG W G Wtilde Gtilde '
             'phiBtilde phiWtilde phiWtildeB phiGtilde').split()
# operators with a block of their own: (Abs, Ph)
A_BLOCKS = dict(eW=(25, 2), eB=(26, 3), uG=(27, 4), uW=(28, 5), uB=(29, 6),
                dG=(30, 7), dW=(31, 8), dB=(32, 9), phiud=(48, 10),
                ephi=(19, 11), uphi=(20, 12), dphi=(21, 13), ledq=(70, 14),
                quqd1=(71, 15), quqd8=(72, 16), lequ1=(73, 17),
                lequ3=(74, 18))
B_BLOCKS = dict(ephi=(6, 9), uphi=(7, 10), dphi=(8, 11), eW=(15, 16),
                eB=(18, 19), uG=(21, 22), uW=(24, 25), uB=(27, 28),
                dG=(30, 31), dW=(33, 34), dB=(36, 37), phiud=(45, 46),
                ledq=(69, 70), quqd1=(72, 73), quqd8=(75, 76),
                lequ1=(78, 79), lequ3=(81, 82))


def flavours(op, part, ms):
    t = H2 if op in S.HERM2 else SW if op in S.SWAP4 else \
        (EEA if ms == 'A' else EEB) if op == 'ee' else \
        H4A if ms == 'A' else H4B
    return t[part].split()


def layout(ms):
    """{(block, index tuple): (operator, part, flavour tuple)}"""
    out = {}
    n = 0
    for op, part in A_GROUPS if ms == 'A' else B_GROUPS:
        for f in [()] if part is None else [
                tuple(map(int, x)) for x in flavours(op, part, ms)]:
            n += 1
            out['FRBlock', (n,)] = (op, part, f)
    if ms == 'B':
        for i, op in enumerate(B_NEWCOUP):
            out['NEWCOUP', (i,)] = (op, None, ())
    for op, bl in (A_BLOCKS if ms == 'A' else B_BLOCKS).items():
        for part, b in zip(('Abs', 'Ph'), bl):
            for f in product((1, 2, 3), repeat=len(S.FIELDS[op])):
                out['FRBlock%d' % b, f] = (op, part, f)
    return out


def name(op):
    """lower-case SMEFTsim name of an operator's coefficient"""
    o = {'phiBox': 'Hbox', 'phiD': 'HDD', 'phi': 'H',
         'phiWtildeB': 'HWBtil', 'Lambda': 'Lambda'}.get(op)
    if o is None:
        o = op.replace('phi', 'H').replace('tilde', 'til')
    return o.lower() if op == 'Lambda' else 'c' + o.lower()


NAMES = {name(o): o for o in list(S.FIELDS) + S.SCALARS}


def keys():
    """{coefficient: is_real} of the files that have a place in the card"""
    skip = {'llphiphi', 'duql', 'qque', 'qqql', 'duue'}
    return {k: r for k, r in S.keys().items()
            if k.split('_')[0] not in skip}
