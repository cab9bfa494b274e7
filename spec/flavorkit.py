"""FlavorKit basis: coefficient names and their meaning in the JMS basis.

A FlavorKit coefficient X_abcd multiplies (bbar a)(dbar c)-type bilinears, i.e.
it equals the JMS tensor element with the indices exchanged within each
bilinear.  DOMAIN lists the coefficients of the basis, FAMILY the JMS family
and the order in which the (exchanged) bilinears appear there."""
from . import jms

# FlavorKit family -> (JMS family, index permutation, conjugate)
FAMILY = {}
for _f, _j in {'DSRR': 'S1ddRR', 'DVLL': 'VddLL', 'DVRR': 'VddRR',
               'DVLR': 'V1ddLR', 'EVLR': 'VdeLR', 'AVLL': 'VeeLL',
               'AVRR': 'VeeRR', 'AVLR': 'VeeLR', 'ASRR': 'SeeRR',
               'BVLL': 'VedLL', 'BVRR': 'VedRR', 'BVLR': 'VedLR',
               'BSRL': 'SedRL', 'BSRR': 'SedRR', 'BTRR': 'TedRR',
               'CVLL': 'VeuLL', 'CVRR': 'VeuRR', 'CVLR': 'VeuLR',
               'CSRL': 'SeuRL', 'CSRR': 'SeuRR', 'CTRR': 'TeuRR'}.items():
    FAMILY[_f] = (_j, (1, 0, 3, 2), False)
# first FlavorKit bilinear is the second JMS one
for _f, _j in {'FVLL': 'VnudLL', 'FVRL': 'VnudLR', 'EVLL': 'VedLL',
               'EVRR': 'VedRR', 'EVRL': 'VedLR', 'ESRR': 'SedRR',
               'ESLR': 'SedRL', 'ETRR': 'TedRR', 'DVRL': 'V1ddLR'}.items():
    FAMILY[_f] = (_j, (3, 2, 1, 0), False)
# charged currents: FlavorKit has (ubar d)(lbar nu), JMS its conjugate
for _f, _j in {'GVLL': 'VnueduLL', 'GVRL': 'VnueduLR', 'GSLL': 'SnueduRR',
               'GSRL': 'SnueduRL'}.items():
    FAMILY[_f] = (_j, (2, 3, 0, 1), True)
for _f, _j in {'Q1R': 'dgamma', 'Q2R': 'dG', 'K2R': 'egamma'}.items():
    FAMILY[_f] = (_j, (1, 0), False)

DOMAIN = {
    'ASRR': (
        '1112 1113 1121 1123 1131 1132 1212 1213 1231 1232 1313 1321 1323 '
        '2121 2123 2131 2132 2212 2213 2221 2223 2231 2232 2312 2323 3123 '
        '3131 3132 3213 3232 3312 3313 3321 3323 3331 3332').split(),
    'AVLL': (
        '1121 1123 1131 1212 1213 1232 1313 1323 2221 2223 2231 2323 3321 '
        '3323 3331').split(),
    'AVLR': (
        '1121 1123 1131 1212 1213 1231 1232 1312 1313 1321 1323 2111 2122 '
        '2132 2133 2221 2223 2231 2311 2312 2313 2321 2322 2323 2333 3111 '
        '3122 3123 3133 3213 3321 3323 3331').split(),
    'AVRR': (
        '1121 1123 1131 1212 1213 1232 1313 1323 2221 2223 2231 2323 3321 '
        '3323 3331').split(),
    'BSRL': (
        '1211 1222 1233 1311 1322 1333 2111 2122 2133 2311 2322 2333 3111 '
        '3122 3133 3211 3222 3233').split(),
    'BSRR': (
        '1211 1222 1233 1311 1322 1333 2111 2122 2133 2311 2322 2333 3111 '
        '3122 3133 3211 3222 3233').split(),
    'BTRR': (
        '1211 1222 1233 1311 1322 1333 2111 2122 2133 2311 2322 2333 3111 '
        '3122 3133 3211 3222 3233').split(),
    'BVLL': (
        '2111 2122 2133 2311 2322 2333 3111 3122 3133').split(),
    'BVLR': (
        '2111 2122 2133 2311 2322 2333 3111 3122 3133').split(),
    'BVRR': (
        '2111 2122 2133 2311 2322 2333 3111 3122 3133').split(),
    'CSRL': (
        '1211 1222 1311 1322 2111 2122 2311 2322 3111 3122 3211 3222').split(),
    'CSRR': (
        '1211 1222 1311 1322 2111 2122 2311 2322 3111 3122 3211 3222').split(),
    'CTRR': (
        '1211 1222 1311 1322 2111 2122 2311 2322 3111 3122 3211 3222').split(),
    'CVLL': (
        '2111 2122 2311 2322 3111 3122').split(),
    'CVLR': (
        '2111 2122 2311 2322 3111 3122').split(),
    'CVRR': (
        '2111 2122 2311 2322 3111 3122').split(),
    'DSRR': (
        '1211 1212 1213 1222 1231 1232 1233 1311 1313 1321 1322 1323 1333 '
        '2111 2121 2122 2123 2131 2132 2133 2311 2312 2322 2323 2333 3111 '
        '3122 3123 3131 3132 3133 3211 3213 3222 3232 3233').split(),
    'DVLL': (
        '1211 1212 1213 1222 1231 1232 1233 1311 1313 1322 1323 1333 2132 '
        '2311 2322 2323 2333 3123').split(),
    'DVLR': (
        '1211 1212 1213 1222 1231 1232 1233 1311 1312 1313 1321 1322 1323 '
        '1333 2132 2311 2312 2313 2321 2322 2323 2333 3123 3213').split(),
    'DVRL': (
        '1211 1222 1233 1311 1322 1333 2311 2322 2333').split(),
    'DVRR': (
        '1211 1212 1213 1222 1231 1232 1233 1311 1313 1322 1323 1333 2132 '
        '2311 2322 2323 2333 3123').split(),
    'ESLR': (
        '1211 1212 1213 1221 1222 1223 1231 1232 1233 1311 1312 1313 1321 '
        '1322 1323 1331 1332 1333 2111 2112 2113 2121 2122 2123 2131 2132 '
        '2133 2311 2312 2313 2321 2322 2323 2331 2332 2333 3111 3112 3113 '
        '3121 3122 3123 3131 3132 3133 3211 3212 3213 3221 3222 3223 3231 '
        '3232 3233').split(),
    'ESRR': (
        '1211 1212 1213 1221 1222 1223 1231 1232 1233 1311 1312 1313 1321 '
        '1322 1323 1331 1332 1333 2111 2112 2113 2121 2122 2123 2131 2132 '
        '2133 2311 2312 2313 2321 2322 2323 2331 2332 2333 3111 3112 3113 '
        '3121 3122 3123 3131 3132 3133 3211 3212 3213 3221 3222 3223 3231 '
        '3232 3233').split(),
    'ETRR': (
        '1211 1212 1213 1221 1222 1223 1231 1232 1233 1311 1312 1313 1321 '
        '1322 1323 1331 1332 1333 2111 2112 2113 2121 2122 2123 2131 2132 '
        '2133 2311 2312 2313 2321 2322 2323 2331 2332 2333 3111 3112 3113 '
        '3121 3122 3123 3131 3132 3133 3211 3212 3213 3221 3222 3223 3231 '
        '3232 3233').split(),
    'EVLL': (
        '1211 1212 1213 1222 1223 1233 1311 1312 1313 1322 1323 1333 2112 '
        '2113 2123 2311 2312 2313 2322 2323 2333 3112 3113 3123 3212 3213 '
        '3223').split(),
    'EVLR': (
        '1121 1123 1131 1211 1212 1213 1222 1223 1233 1311 1312 1313 1322 '
        '1323 1333 2112 2113 2123 2221 2223 2231 2311 2312 2313 2322 2323 '
        '2333 3112 3113 3123 3212 3213 3223 3321 3323 3331').split(),
    'EVRL': (
        '1211 1212 1213 1222 1223 1233 1311 1312 1313 1322 1323 1333 2112 '
        '2113 2123 2311 2312 2313 2322 2323 2333 3112 3113 3123 3212 3213 '
        '3223').split(),
    'EVRR': (
        '1211 1212 1213 1222 1223 1233 1311 1312 1313 1322 1323 1333 2112 '
        '2113 2123 2311 2312 2313 2322 2323 2333 3112 3113 3123 3212 3213 '
        '3223').split(),
    'FVLL': (
        '1212 1213 1223 1311 1312 1313 1322 1323 1333 2111 2112 2113 2122 '
        '2123 2133 2311 2312 2313 2322 2323 2333 3112 3113 3123 3212 3213 '
        '3223').split(),
    'FVRL': (
        '1212 1213 1223 1311 1312 1313 1322 1323 1333 2111 2112 2113 2122 '
        '2123 2133 2311 2312 2313 2322 2323 2333 3112 3113 3123 3212 3213 '
        '3223').split(),
    'GSLL': (
        '1111 1112 1113 1121 1122 1123 1131 1132 1133 1211 1212 1213 1221 '
        '1222 1223 1231 1232 1233 2111 2112 2113 2121 2122 2123 2131 2132 '
        '2133 2211 2212 2213 2221 2222 2223 2231 2232 2233 3111 3112 3113 '
        '3121 3122 3123 3131 3132 3133 3211 3212 3213 3221 3222 3223 3231 '
        '3232 3233').split(),
    'GSRL': (
        '1111 1112 1113 1121 1122 1123 1131 1132 1133 1211 1212 1213 1221 '
        '1222 1223 1231 1232 1233 2111 2112 2113 2121 2122 2123 2131 2132 '
        '2133 2211 2212 2213 2221 2222 2223 2231 2232 2233 3111 3112 3113 '
        '3121 3122 3123 3131 3132 3133 3211 3212 3213 3221 3222 3223 3231 '
        '3232 3233').split(),
    'GVLL': (
        '1111 1112 1113 1121 1122 1123 1131 1132 1133 1211 1212 1213 1221 '
        '1222 1223 1231 1232 1233 2111 2112 2113 2121 2122 2123 2131 2132 '
        '2133 2211 2212 2213 2221 2222 2223 2231 2232 2233 3111 3112 3113 '
        '3121 3122 3123 3131 3132 3133 3211 3212 3213 3221 3222 3223 3231 '
        '3232 3233').split(),
    'GVRL': (
        '1111 1112 1113 1121 1122 1123 1131 1132 1133 1211 1212 1213 1221 '
        '1222 1223 1231 1232 1233 2111 2112 2113 2121 2122 2123 2131 2132 '
        '2133 2211 2212 2213 2221 2222 2223 2231 2232 2233 3111 3112 3113 '
        '3121 3122 3123 3131 3132 3133 3211 3212 3213 3221 3222 3223 3231 '
        '3232 3233').split(),
    'K2R': (
        '12 13 21 23 31 32').split(),
    'Q1R': (
        '12 13 21 23 31 32').split(),
    'Q2R': (
        '12 13 21 23 31 32').split(),
}


def keys():
    return {f + '_' + i: False for f in DOMAIN for i in DOMAIN[f]}


def to_jms(atoms, rep, P):
    """{JMS key: value} using the representatives `rep` of the JMS basis"""
    out = {}
    for k, v in atoms.items():
        f, i = k.split('_')
        fam, perm, conj = FAMILY[f]
        idx = tuple(int(i[p]) for p in perm)
        if f == 'K2R':
            # dipole normalised to e m / 2 with the mass of the lepton
            # annihilated by the right-handed field
            v = v * P.e * P.ml[idx[1]] / 2
        if len(idx) == 2:
            out[jms.label(fam, idx)] = v
            continue
        for j, c in jms.orbit(fam, idx):
            if jms.label(fam, j) in rep:
                out[jms.label(fam, j)] = v.conjugate() if c != conj else v
                break
        else:
            raise KeyError(k)
    return out
