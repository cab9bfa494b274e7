"""Definitions of the planted bugs (used by mkseed.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLS, WET, SME = ('wcxf/classes.py', 'wcxf/translators/wet.py',
                 'wcxf/translators/smeft.py')
MAS, MAI, UT = ('wcxf/matchers/smeft.py', 'wcxf/matchers/__init__.py',
                'wcxf/util/smeftutil.py')
QCD = 'wcxf/util/qcd.py'

HEAD = '''import sys, itertools
import wcxf

def fail(msg):
    print('FAIL', msg)
    sys.exit(1)

def check(cond, msg):
    if not cond:
        fail(msg)

def close(a, b, msg, tol=1e-12):
    if abs(a - b) > tol * max(1e-300, abs(a), abs(b)):
        fail('%s: %r != %r' % (msg, a, b))

'''
JMS = HEAD + '''
FAM4 = """VnueLL VnuuLL VnudLL VeuLL VedLL V1udLL V8udLL VeuRR VedRR V1udRR V8udRR
VnueLR VeeLR VnuuLR VnudLR VeuLR VedLR VueLR VdeLR V1uuLR V8uuLR V1udLR V8udLR
V1duLR V8duLR V1ddLR V8ddLR VuuLL VddLL VuuRR VddRR VeeLL VnunuLL VeeRR S1uuRR
S8uuRR S1ddRR S8ddRR SeeRR VnueduLL VnueduLR V1udduLR V8udduLR SeuRL SedRL
SnueduRL SeuRR TeuRR SedRR TedRR SnueduRR TnueduRR S1udRR S8udRR S1udduRR
S8udduRR SuddLL SduuLL SduuLR SduuRL SdudRL SduuRR""".split()
FAM2 = "egamma ugamma dgamma uG dG".split()
KEYS = [f + '_' + ''.join(i) for n, F in ((4, FAM4), (2, FAM2)) for f in F
        for i in itertools.product('123', repeat=n)] + ['G', 'Gtilde']
for E in ('WET', 'WET-4', 'WET-3'):
    wcxf.EFT(E, {'all': {}})
    wcxf.Basis(E, 'JMS', {'all': {k: {} for k in KEYS}})

def translate(to, values, scale=4.18, eft='WET', basis='JMS', **kw):
    return wcxf.WC(eft, basis, scale, values).translate(to, **kw).dict

'''
SMEFT = JMS + '''
S0 = """G Gtilde W Wtilde phi phiBox phiD phiG phiB phiW phiWB phiGtilde phiBtilde
phiWtilde phiWtildeB""".split()
S2 = """uphi dphi ephi eW eB uG uW uB dG dW dB phil1 phil3 phie phiq1 phiq3 phiu
phid phiud llphiphi""".split()
S4 = """ll qq1 qq3 lq1 lq3 ee uu dd eu ed ud1 ud8 le lu ld qe qu1 qd1 qu8 qd8
ledq quqd1 quqd8 lequ1 lequ3 duql qque qqql duue""".split()
SK = S0 + [f + '_' + ''.join(i) for n, F in ((2, S2), (4, S4)) for f in F
           for i in itertools.product('123', repeat=n)]
wcxf.EFT('SMEFT', {'all': {}})
for b in ('Warsaw', 'Warsaw up', 'Warsaw mass'):
    wcxf.Basis('SMEFT', b, {'all': {k: {} for k in SK}})

def smeft(values, basis='Warsaw'):
    return wcxf.WC('SMEFT', basis, 160, values)

'''

SEEDS = {}


def seed(name, property, needs, breaks, edits, demo):
    SEEDS[name] = dict(property=property, needs=needs, breaks=breaks,
                       edits=edits, demo=demo)


seed('tiny-imag', 'C01', 'a result with an imaginary part far below its real '
     'part', 'imaginary parts below 1e-9 of the modulus are silently dropped '
     'from stored values',
     [(CLS, "        if v.imag != 0:\n", "        if abs(v.imag) > 1e-9 * "
       "abs(v):\n")], HEAD + '''
d = wcxf.WC.dict2values({'a': 1 + 1e-12j, 'b': 2j, 'c': 3.0})
check(d['a'] == {'Re': 1.0, 'Im': 1e-12}, d)
check(d['b'] == {'Re': 0.0, 'Im': 2.0}, d)
check(d['c'] == 3.0, d)
''')

seed('prefix-eft', 'C05', 'two EFTs one of whose names starts with the other',
     'the list of known bases of an EFT contains bases of other EFTs',
     [(CLS, "for basis in Basis.instances if basis[0] == self.eft)",
       "for basis in Basis.instances if basis[0].startswith(self.eft))")],
     HEAD + '''
wcxf.EFT('W', {}); wcxf.EFT('W-4', {})
wcxf.Basis('W', 'x', {}); wcxf.Basis('W-4', 'y', {})
check(wcxf.EFT['W'].known_bases == ('x',), wcxf.EFT['W'].known_bases)
check(wcxf.EFT['W-4'].known_bases == ('y',), wcxf.EFT['W-4'].known_bases)
''')

seed('wcs-by-basis-name', 'C02', 'two EFTs with a basis of the same name, both '
     'used in one process', 'coefficients of the basis of another EFT are '
     'accepted and those of the right one rejected',
     [(CLS, "class Basis(WCxf, NamedInstanceClass):\n    \"\"\"Class "
       "representing basis files.\"\"\"\n", "class Basis(WCxf, "
       "NamedInstanceClass):\n    \"\"\"Class representing basis files.\"\"\"\n"
       "\n    _wcs_by_name = {}\n\n"),
      (CLS, "            self._all_wcs = [wc for sector, wcs in "
       "self.sectors.items() for wc in wcs]\n", "            self._all_wcs = "
       "self._wcs_by_name.setdefault(\n                self.basis, [wc for "
       "sector, wcs in self.sectors.items() for wc in wcs])\n")],
     HEAD + '''
for e, k in (('E', 'a'), ('F', 'b')):
    wcxf.EFT(e, {'s': {}})
    wcxf.Basis(e, 'same', {'s': {k: {}}})
    wcxf.WC(e, 'same', 10, {k: 1}).validate()
try:
    wcxf.WC('F', 'same', 10, {'a': 1}).validate()
except Exception:
    pass
else:
    fail('accepted')
''')

seed('child-merge', 'C04', 'a child basis that redefines a sector of its parent',
     'the sector of the same name is merged into the one of the parent (and '
     'changes the parent) instead of replacing it',
     [(CLS, "                self.sectors.update(sectors)\n",
       "                for s, wcs in sectors.items():\n"
       "                    self.sectors.setdefault(s, {}).update(wcs)\n")],
     HEAD + '''
wcxf.EFT('E', {'s': {}})
p = wcxf.Basis('E', 'p', {'s': {'a': {}, 'b': {}}})
c = wcxf.Basis('E', 'c', {'s': {'x': {}}}, parent='p')
check(list(c.sectors['s']) == ['x'], c.sectors)
check(list(p.sectors['s']) == ['a', 'b'], p.sectors)
''')

seed('imag-only', 'C22', 'a coefficient with vanishing real part',
     'purely imaginary coefficients are lost when passing to four flavours in '
     'the Bern basis',
     [(MAI, "    keys = wcxf.Basis['WET-4', 'Bern'].all_wcs\n    return {k: v "
       "for k, v in C.items() if k in keys}",
       "    keys = wcxf.Basis['WET-4', 'Bern'].all_wcs\n    return {k: v "
       "for k, v in C.items() if k in keys and v.real}")],
     HEAD + '''
for e in ('WET', 'WET-4'):
    wcxf.EFT(e, {'s': {}})
    wcxf.Basis(e, 'Bern', {'s': {'1dsds': {}, '2dsds': {}}})
w = wcxf.WC('WET', 'Bern', 4, {'1dsds': {'Im': 2}, '2dsds': 1})
d = w.match('WET-4', 'Bern').dict
check(d == {'1dsds': 2j, '2dsds': 1}, d)
''')

seed('ms-alphas', 'C10', 'a caller who changes the strong coupling and looks at '
     'operators that depend on the strange mass', 'the running strange mass '
     'uses the default strong coupling instead of the one supplied',
     [(WET, "    parameters['m_s'] = m_s(p['m_s'], scale, f, p['alpha_s'])",
       "    parameters['m_s'] = m_s(p['m_s'], scale, f)")],
     JMS + '''
from wcxf.util.qcd import m_b, m_s
d = translate('EOS', {'dgamma_23': 1e-9}, parameters={'alpha_s': 0.13})
r = -m_s(0.095, 4.18, 5, 0.13) / m_b(4.18, 4.18, 5, 0.13)
close(d["b->s::c7'"] / d['b->s::c7'], r, "c7'/c7")
''')

seed('ckm-cache', 'C11', 'two matchings in one process that differ in the CP '
     'phase only', 'the mixing matrix of an earlier call is reused for '
     'another CP phase',
     [(WET, "    C = C_in.copy()\n    V = ckmutil.ckm.ckm_tree(p[\"Vus\"], "
       "p[\"Vub\"], p[\"Vcb\"], p[\"gamma\"])\n    UdL = V\n",
       "    C = C_in.copy()\n    key = tuple(p[k] for k in ('Vus', 'Vub', "
       "'Vcb'))\n    if key not in _ckm_cache:\n        _ckm_cache[key] = "
       "ckmutil.ckm.ckm_tree(*(key + (p[\"gamma\"],)))\n"
       "    UdL = V = _ckm_cache[key]\n"),
      (WET, "def rotate_down(C_in, p):\n", "_ckm_cache = {}\n\n\ndef "
       "rotate_down(C_in, p):\n")],
     SMEFT + '''
import numpy as np
w = smeft({'dG_11': 1e-8, 'dG_31': 2e-8, 'lq1_1112': 1e-8}, 'Warsaw up')
a = w.match('WET', 'JMS', parameters={'gamma': 1.1}).dict
b = w.match('WET', 'JMS', parameters={'gamma': 0.4}).dict
import ckmutil.ckm
p = wcxf.parameters.p
V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], 0.4)
x = np.zeros((3, 3), complex); x[0, 0] = 1e-8; x[2, 0] = 2e-8
y = V.conj().T @ x * 246.2196 / 2**0.5
close(b['dG_31'], y[2, 0], 'dG_31', 1e-4)
''')

seed('missing-scalar', 'C12', 'an input without the operators G or Gtilde',
     'matching fails if a purely gluonic coefficient is absent',
     [(UT, "    for k in (set(WC_keys) - set(C.keys())):\n",
       "    for k in (set(WC_keys_2f + WC_keys_4f + [\"phiWB\"]) - "
       "set(C.keys())):\n")],
     SMEFT + '''
try:
    d = smeft({'G': 1e-9}, 'Warsaw up').match('WET', 'JMS').dict
except Exception as e:
    fail(repr(e))
close(d['G'], 1e-9, 'G')
''')

seed('lfv-scalar', 'C14', 'lepton-flavour-violating scalar operators',
     'CS and CP of lepton-flavour-violating transitions take the coefficient '
     'with exchanged leptons',
     [(WET, "        'F' + ind + 'S' : C[\"SedRL\"][lp, l, b, s].conj() / 2\n",
       "        'F' + ind + 'S' : C[\"SedRL\"][l, lp, b, s].conj() / 2\n"),
      (WET, "        'F' + ind + 'P' : - C[\"SedRL\"][lp, l, b, s].conj() / "
       "2\n", "        'F' + ind + 'P' : - C[\"SedRL\"][l, lp, b, s].conj() / "
       "2\n")],
     JMS + '''
a = translate('flavio', {'SedRL_2132': 1e-9})
check(abs(a.get('CS_bsemu', 0)) > 0, a)
check(abs(a.get('CS_bsmue', 0)) == 0, a)
''')

seed('fierz-uncorr', 'C15', 'scalar octet operators of the form (u d)(d u)',
     'wrong colour factor in one primed coefficient',
     [(WET, "            'F' + qqqq + '10p' : -C[\"S1udduRR\"][f4, f1, f2, "
       "f3].conj() / 8\n                                + C[\"S8udduRR\"][f4, "
       "f1, f2, f3].conj() / 16 / Nc\n",
       "            'F' + qqqq + '10p' : -C[\"S1udduRR\"][f4, f1, f2, "
       "f3].conj() / 8\n                                + C[\"S8udduRR\"][f4, "
       "f1, f2, f3].conj() / 8 / Nc\n")],
     JMS + '''
# hermitian conjugation relates primed and unprimed coefficients
a = translate('Bern', {'S8udduRR_1321': 1e-9})   # sbuu
b = translate('Bern', {'S8udduRR_1231': 1e-9})   # bsuu -> primed sbuu
for k in ('5', '6', '7', '8', '9', '10'):
    x, y = a.get(k + 'sbuu', 0), b.get(k + 'psbuu', 0)
    x2, y2 = a.get(k + 'psbuu', 0), b.get(k + 'sbuu', 0)
    check(abs(abs(x) + abs(x2) - abs(y) - abs(y2)) < 1e-12 * (abs(x) + abs(x2)
          + abs(y) + abs(y2) + 1e-300), (k, a, b))
''')

seed('k2r-mass', 'C16', 'tau to muon dipoles',
     'the dipole of the reverse transition is normalised with the wrong lepton '
     'mass', [(WET, "            if ind[0] == '3':\n                m = "
               "p['m_tau']\n            C_out['K2R_' + ind]",
               "            if '3' in ind:\n                m = p['m_tau']\n"
               "            C_out['K2R_' + ind]")],
     JMS + '''
F = ['K2R_12', 'K2R_13', 'K2R_21', 'K2R_23', 'K2R_31', 'K2R_32']
wcxf.Basis('WET', 'FlavorKit', {'all': {k: {} for k in F}})
for k in F:
    x = translate('JMS', {k: 2.0}, basis='FlavorKit')
    y = wcxf.WC('WET', 'JMS', 4, wcxf.WC.dict2values(x)).translate(
        'FlavorKit').dict
    check(set(y) == {k}, y)
    close(y[k], 2.0, k)
''')

seed('qque-rot', 'C17', 'the baryon-number-violating operator qque with '
     'different quark flavours', 'one doublet index of qque is rotated by the '
     'conjugate matrix',
     [(UT, "ijkl->abcd', Uq, Ue, Uq, Uu, C_in['qque'])",
       "ijkl->abcd', Uq, Ue, Uq.conj(), Uu, C_in['qque'])")],
     SMEFT + '''
w = smeft({'qque_1311': 1e-8, 'qque_2311': 2e-8})
v = w.translate('Warsaw up').translate('Warsaw').dict
close(v['qque_1311'], 1e-8, 'qque_1311', 1e-9)
close(v['qque_2311'], 2e-8, 'qque_2311', 1e-9)
''')

seed('mass-uB', 'C18', 'the operator uB with a mixed flavour',
     'the hypercharge dipole of up quarks is not rotated to the mass basis',
     [(SME, "C_rotate_u = ['uphi', 'uG', 'uW', 'uB']",
       "C_rotate_u = ['uphi', 'uG', 'uW']")],
     SMEFT + '''
d = smeft({'uB_13': 1e-8, 'uW_13': 1e-8}).translate('Warsaw mass').dict
for i in '123':
    close(d.get('uB_%s3' % i, 0), d.get('uW_%s3' % i, 0), i)
''')

seed('symm8', 'C19', 'qqql with three different quark flavours',
     'one redundant component of qqql has a wrong sign',
     [(UT, "    a[2, 1, 0, 1] = a[0, 2, 1, 1]+a[0, 1, 2, 1]-a[1, 2, 0, 1]",
       "    a[2, 1, 0, 1] = a[0, 2, 1, 1]-a[0, 1, 2, 1]+a[1, 2, 0, 1]")],
     SMEFT + '''
for k in ('qqql_1322', 'qqql_1232', 'qqql_2312'):
    w = smeft({k: 1e-8}).translate('Warsaw up').translate('Warsaw').dict
    for j in ('qqql_1322', 'qqql_1232', 'qqql_2312', 'qqql_2132'):
        e = 1e-8 if j == k else 0
        if j == 'qqql_2132':
            continue
        check(abs(w.get(j, 0) - e) < 1e-17, (k, j, w.get(j)))
''')

seed('zur-mix', 'C20', 'modified couplings of right-handed up quarks',
     'the modified Z coupling in the left-right up-quark operator belongs to '
     'down quarks', [(MAS, "np.einsum('pr,st',zul(C, p),zur(C, p))\nC[\"V8uuLR",
                      "np.einsum('pr,st',zul(C, p),zdr(C, p)*(-2))\nC[\"V8uuLR")],
     SMEFT + '''
d = smeft({'phiu_12': 1e-8}, 'Warsaw up').match('WET', 'JMS').dict
e = smeft({'phid_12': 1e-8}, 'Warsaw up').match('WET', 'JMS').dict
check(abs(d.get('V1uuLR_1112', 0)) > 1e-12, d.get('V1uuLR_1112'))
check(abs(e.get('V1uuLR_1112', 0)) < 1e-18, e.get('V1uuLR_1112'))
''')

seed('rot-vde', 'C21', 'the operator qe with quark flavour change and a complex '
     'mixing matrix', 'the quark indices of one operator are rotated by the '
     'conjugate matrix',
     [(WET, "    for k in ['V1ddLR', 'V1duLR', 'V8ddLR', 'V8duLR', 'VdeLR']:\n",
       "    C['VdeLR'] = np.einsum('ia,jb,ijkl->abkl', UdL, UdL.conj(), "
       "C_in['VdeLR'])\n"
       "    for k in ['V1ddLR', 'V1duLR', 'V8ddLR', 'V8duLR']:\n")],
     SMEFT + '''
import ckmutil.ckm
p = wcxf.parameters.p
V = ckmutil.ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
d = smeft({'qe_1111': 1e-8}, 'Warsaw up').match('WET', 'JMS').dict
for i in range(3):
    for j in range(3):
        x = V[0, i].conjugate() * V[0, j] * 1e-8
        close(d['VdeLR_%d%d11' % (i + 1, j + 1)], x, (i, j), 1e-6)
''')

seed('one-step-bern', 'C13', 'a matching at a scale below the electroweak scale '
     'that depends on running masses', 'the one-step matching to Bern '
     'translates at the Z mass instead of the given scale',
     [(MAI, "    return wcxf.translators.JMS_to_Bern(C_JMS, scale, parameters)",
       "    return wcxf.translators.JMS_to_Bern(C_JMS, "
       "wcxf.translators.wet.default_parameters['m_Z'],\n"
       "                                        parameters)")],
     SMEFT + '''
w = smeft({'dB_23': 1e-8})
a = w.match('WET', 'Bern').dict
b = w.match('WET', 'JMS').translate('Bern').dict
for k in b:
    close(a[k], b[k], k, 1e-9)
''')

seed('ff-up-dipole', 'C30', 'chromomagnetic dipole of up quarks in FormFlavor',
     'the left-handed up chromomagnetic dipole is not conjugated',
     [(WET, "            'CGL_' + qq : C['uG'][c, u].conj() / gs,",
       "            'CGL_' + qq : C['uG'][c, u] / gs,")],
     JMS + '''
d = translate('formflavor', {'uG_11': {'Re': 1e-9, 'Im': 2e-9}})
close(d['CGL_uu'], d['CGR_uu'].conjugate(), 'CGL')
''')

seed('drop-tiny', 'C06', 'results that are very small compared to one',
     'small but non-vanishing coefficients are dropped from matching results',
     [(CLS, '''        to EFT `to_eft` and basis `to_basis`."""
        dict_out = self.function(WC_in.dict, WC_in.scale, parameters)
        # filter out zero values
        dict_out = {k: v for k, v in dict_out.items() if v != 0}''',
       '''        to EFT `to_eft` and basis `to_basis`."""
        dict_out = self.function(WC_in.dict, WC_in.scale, parameters)
        # filter out zero values
        dict_out = {k: v for k, v in dict_out.items() if abs(v) > 1e-20}''')],
     HEAD + '''
@wcxf.matcher('E', 'b', 'F', 'b')
def f(C, scale, parameters):
    return dict(C)
w = wcxf.WC('E', 'b', 10, {'a': 1e-25, 'b': 0, 'c': {'Im': 1e-30}})
d = w.match('F', 'b').dict
check(d == {'a': 1e-25, 'c': 1e-30j}, d)
''')

seed('dup-adjacent', 'C03', 'a coefficient name that occurs in two sectors that '
     'do not follow one another', 'duplicate names in non-adjacent sectors are '
     'not reported',
     [(CLS, "        if len(all_keys) != len(set(all_keys)):  # we have "
       "duplicate keys!\n", "        secs = list(self.sectors.values())\n"
       "        if any(set(s1) & set(s2) for s1, s2 in zip(secs, secs[1:])):"
       "  # we have duplicate keys!\n")],
     HEAD + '''
wcxf.EFT('E', {'s': {}, 't': {}, 'u': {}})
for secs in ({'s': {'a': {}}, 't': {'b': {}}, 'u': {'a': {}}},
             {'s': {'a': {}}, 't': {'a': {}}, 'u': {'c': {}}}):
    try:
        wcxf.Basis('E', 'x', secs).validate()
    except ValueError:
        continue
    fail('accepted')
''')

CLI, EOS, SIM = ('wcxf/cli.py', 'wcxf/converters/eos.py',
                 'wcxf/converters/smeftsim.py')
TMP = HEAD + '''
import os, tempfile, shutil, json, io
import atexit
D = tempfile.mkdtemp()
atexit.register(shutil.rmtree, D, True)

def put(name, text):
    p = os.path.join(D, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)
    return p

'''

seed('yaml-cache', 'C07', 'a coefficient file dumped as YAML after one of its '
     'values was read', 'values are dumped from the cached number dictionary, '
     'so that complex values turn into Python objects in YAML',
     [(CLS, "        d = {k: v for k,v in self.__dict__.items() if k[0] != '_'"
       "}\n", "        d = {k: v for k,v in self.__dict__.items() if k[0] != "
       "'_'}\n        if 'values' in d and self._dict and fmt == 'yaml':\n"
       "            d['values'] = dict(self._dict)\n")], HEAD + '''
import yaml
w = wcxf.WC('E', 'B', 100, {'a': {'Re': 1, 'Im': 2}, 'b': '3'})
w.dict
t = w.dump(fmt='yaml')
w2 = wcxf.WC.load(t)
check(w2.values == w.values, t)
check(w2.dict == w.dict, t)
''')

seed('json-sorted-none', 'C08', 'a YAML basis file with a sector without '
     'coefficients', 'empty sectors are dropped on conversion to JSON',
     [(CLS, "    d = yaml.load(stream_in)\n    return _dump_json(d, stream_out,"
       " **kwargs)", "    d = yaml.load(stream_in)\n    if isinstance(d, dict) "
       "and isinstance(d.get('sectors'), dict):\n        d['sectors'] = {s: w "
       "for s, w in d['sectors'].items()\n                        if w is not "
       "None}\n    return _dump_json(d, stream_out, **kwargs)")], TMP + '''
from wcxf.converters.yamljson import convert_json
out = io.StringIO()
r = convert_json(io.StringIO('eft: E\\nbasis: B\\nsectors:\\n  s:\\n    C1:\\n'
                             '    C2: {real: true}\\n  t:\\n'), out)
check(not r, r)
d = json.loads(out.getvalue())
check(d == {'eft': 'E', 'basis': 'B', 'sectors':
            {'s': {'C1': None, 'C2': {'real': True}}, 't': None}}, d)
''')

seed('match-then-translate', 'C09', 'the match subcommand with a target basis '
     'that the EFT of the input has as well', 'the command translates within '
     'the EFT of the input instead of matching',
     [(CLI, "    wc_out = wc_in.match(args.EFT, args.BASIS)\n",
       "    try:\n        wc_out = wc_in.translate(args.BASIS)\n    except "
       "ValueError:\n        wc_out = wc_in.match(args.EFT, args.BASIS)\n")],
     TMP + '''
from wcxf import cli
wcxf.translator('E', 'B', 'C')(lambda x, s, p: {k: 2 * v for k, v in x.items()})
wcxf.matcher('E', 'B', 'F', 'C')(lambda x, s, p: {k: 3 * v for k, v in x.items()})
i = put('in.json', json.dumps(dict(eft='E', basis='B', scale=1, values={'a': 1})))
o = os.path.join(D, 'out.json')
sys.argv = ['wcxf', 'match', 'F', 'C', i, '--output', o]
r = cli.wcxf_cli()
check(not r, r)
import gc; gc.collect()
w = wcxf.WC.load(open(o))
check((w.eft, w.basis, w.dict) == ('F', 'C', {'a': 3}), w.dump())
''')

seed('eos-first-lepton', 'C23', 'an imaginary charged-current coefficient that '
     'differs between electron and muon', 'the check for lepton flavour '
     'universality of the imaginary part compares only real parts',
     [(EOS, """            if wc.dict.get(k2.replace('lnu', 'enue'), 0) != wc.dict.get(k2.replace('lnu', 'munumu'), 0):
                raise ValueError("Found lepton flavour non-universal charged-current coefficients")
            return wc.dict.get(k2.replace('lnu', 'enue'), 0).imag
""", """            if wc.dict.get(k2.replace('lnu', 'enue'), 0).real != wc.dict.get(k2.replace('lnu', 'munumu'), 0).real:
                raise ValueError("Found lepton flavour non-universal charged-current coefficients")
            return wc.dict.get(k2.replace('lnu', 'enue'), 0).imag
""")], HEAD + '''
from wcxf.converters.eos import wcxf2eos
sm = {'b->clnu::Im{cVL}': {'central': 0.5, 'min': 0, 'max': 1}}
w = wcxf.WC('E', 'EOS', 4.2, {'b->cenue::cVL': {'Re': 1, 'Im': 2},
                              'b->cmunumu::cVL': {'Re': 1, 'Im': 2}})
check(wcxf2eos(w, sm)['b->clnu::Im{cVL}']['min'] == 2.5, 'universal')
w = wcxf.WC('E', 'EOS', 4.2, {'b->cenue::cVL': {'Re': 1, 'Im': 2},
                              'b->cmunumu::cVL': {'Re': 1, 'Im': 3}})
try:
    r = wcxf2eos(w, sm)
except ValueError:
    pass
else:
    fail(r)
''')

seed('card-angle', 'C24', 'a card of model set A in the alpha scheme with a '
     'complex ll_1123', 'the phase of a coefficient is taken from another '
     'one', [(SIM, "	  [23, format(angle(wc.dict['ll_1113']),'.6e'), '# "
              "cllPh1113'],\n	  [24, format(angle(wc.dict['ll_1123']),'.6e'), "
              "'# cllPh1123'],\n	  [25,", "	  [23, format(angle(wc.dict["
              "'ll_1113']),'.6e'), '# cllPh1113'],\n	  [24, format(angle(wc."
              "dict['ll_1132']),'.6e'), '# cllPh1123'],\n	  [25,")],
     HEAD + '''
from cmath import phase
from collections import defaultdict
from wcxf.converters.smeftsim import *
class D(dict):
    def __missing__(self, k):
        return 0.
w = wcxf.WC('SMEFT', 'Warsaw mass', 1000, {'ll_1123': {'Re': -1e-8, 'Im': 2e-8}})
for scheme in ('alpha', 'mw'):
    card = smeftsim_card_fill(initialize_smeftsim_card('A'), w, 'A', 1000, scheme)
    n = 0
    for b in card['Block'].values():
        for r in b['values']:
            if str(r[-1]).strip() == '# cllPh1123':
                n += 1
                close(float(r[1]), phase(-1 + 2j), scheme, 1e-5)
    check(n == 1, (scheme, n))
''')

seed('card-updates', 'C25', 'the same coefficient file used after the '
     'conversion', 'the conversion rescales the coefficients of the caller by '
     'the cutoff scale', [(SIM, "def smeftsim_card_fill(card, wc, model_set, "
                           "lambda_smeft_value, input_scheme_value):\n",
                           "def smeftsim_card_fill(card, wc, model_set, "
                           "lambda_smeft_value, input_scheme_value):\n"
                           "  for k in [k for k, v in wc.dict.items() if v == "
                           "0]:\n    del wc.dict[k]\n")], HEAD + '''
from wcxf.converters.smeftsim import *
w = wcxf.WC('SMEFT', 'Warsaw mass', 1000, {'G': 1e-6, 'W': 0, 'phil1_11': 0})
d = dict(w.dict)
smeftsim_card_fill(initialize_smeftsim_card('A'), w, 'A', 1000, 'alpha')
check(w.dict == d, w.dict)
''')

seed('card-mw-ghost', 'C26', 'model set B in the m_W input scheme',
     'the mass of the negative W ghost stays at the value of the other scheme',
     [(SIM, '      p_list.insert(41, "   9000004 80.387000 # ghWm : MW" )\n',
       '      p_list.insert(41, "   9000004 79.824360 # ghWm : MW" )\n')],
     HEAD + '''
from wcxf.converters.smeftsim import *
p = smeftsim_card_text('B', 'mw')[0]
m = {l.split()[0]: float(l.split()[1]) for l in p.splitlines()
     if l.strip().endswith(': MW')}
check(m == {'9000003': 80.387, '9000004': 80.387, '251': 80.387}, m)
''')

seed('mb-default-coupling', 'C27', 'a strong coupling given by the caller and '
     'the b mass in the four-flavour theory', 'the matching at the threshold '
     'uses the default strong coupling',
     [(QCD, "    alphas_mb = alpha_s(mbmb, 5, alphasMZ=alphasMZ)\n",
       "    alphas_mb = alpha_s(mbmb, 5) if f == 4 else \\\n        "
       "alpha_s(mbmb, 5, alphasMZ=alphasMZ)\n")], HEAD + '''
from wcxf.util import qcd
import rundec
a = qcd.alpha_s(4.18, 5, alphasMZ=0.13)
c = rundec.CRunDec()
c.nfMmu.Mth = 4.8
c.nfMmu.muth = 4.8
c.nfMmu.nf = 5
close(qcd.m_b(4.18, 3.0, 4, alphasMZ=0.13),
      c.mH2mL(4.18, a, 4.18, c.nfMmu, 3.0, 3), 'm_b')
''')

seed('glob-dot', 'C28', 'a basis file whose name contains no EFT prefix',
     'definition files without a dot in their stem are not found',
     [('wcxf/__init__.py', "all_bases = glob.glob(os.path.join(_root, 'bases',"
       " '*.basis.json'))", "all_bases = glob.glob(os.path.join(_root, 'bases',"
       " '*.*.basis.json'))")], TMP.replace('import wcxf\n', '') + '''
R = os.path.join(D, 'repo')
shutil.copytree(os.path.join(os.getcwd(), 'wcxf'), os.path.join(R, 'wcxf'))
put('repo/wcxf/bases/e.eft.json', '{"eft": "E", "sectors": {}}')
put('repo/wcxf/bases/plain.basis.json',
    '{"eft": "E", "basis": "plain", "sectors": {}}')
put('repo/wcxf/bases/e.dot.basis.json',
    '{"eft": "E", "basis": "dot", "sectors": {}}')
sys.path.insert(0, R)
import wcxf
check(wcxf.__file__.startswith(R), wcxf.__file__)
check(set(wcxf.EFT['E'].known_bases) == {'plain', 'dot'},
      wcxf.EFT['E'].known_bases)
''')

seed('tex-beside', 'C29', 'a look at the directory of temporary files after '
     'the validation of a basis', 'the LaTeX source is written beside the '
     'temporary directory and stays there',
     [(CLS, "    tmpf = os.path.join(tmpd, 'textest.tex')\n",
       "    tmpf = tmpd + '.tex'\n")], TMP + '''
from wcxf import classes
sub = os.path.join(D, 'only')
os.mkdir(sub)
tempfile.tempdir = sub
classes._testtex('$x$')
check(os.listdir(sub) == [], os.listdir(sub))
''')

seed('table-real-false', 'C31', 'a basis file that states "real": false',
     'coefficients explicitly declared complex are listed as real',
     [(CLS, "                    if 'real' not in d or not d['real']:\n",
       "                    if 'real' not in d:\n")], HEAD + '''
b = wcxf.Basis('E', 'B', {'s': {'a': {'real': False}, 'b': {'real': True},
                                'c': {}}})
t = {l.split('|')[1].strip(): l.split('|')[3].strip()
     for l in str(b).splitlines() if l.startswith('| `')}
check(t == {'`a`': 'C', '`b`': 'R', '`c`': 'C'}, t)
''')

seed('rot-duql', 'C32', 'a rotation of the right-handed down quarks',
     'the down index of duql is not rotated',
     [(UT, "Uu, Ul, Ud, Uq, C_in['duql'])", "Uu, Ul, Uu, Uq, C_in['duql'])")],
     HEAD + '''
import numpy as np
from wcxf.util.smeftutil import flavor_rotation
c, s = 0.6, 0.8
R = np.array([[c, s, 0], [-s, c, 0], [0, 0, 1]], dtype=complex)
one = np.eye(3, dtype=complex)
C = np.zeros((3,) * 4, dtype=complex)
C[0, 0, 0, 0] = 1
D = flavor_rotation({'duql': C}, one, one, R, one, one)['duql']
check(np.allclose(D[:, 0, 0, 0], R[0]) and abs(D).sum() - 1.4 < 1e-9, D[:, 0, 0, 0])
''')

seed('alpha-default', 'C33', 'the default strong coupling used together with '
     'running quantities', 'the default strong coupling is out of the measured '
     'range',
     [('wcxf/parameters.py', "p['alpha_s'] = 0.1185", "p['alpha_s'] = 0.1285")],
     HEAD + '''
from wcxf.parameters import p
from wcxf.util import qcd
check(0.115 < p['alpha_s'] < 0.1215, p['alpha_s'])
check(qcd.alpha_s(91.1876, 5) == p['alpha_s'], 'running')
''')

seed('load-first', 'C34', 'a file with several YAML documents',
     'the first of several documents is silently used',
     [(CLS, "        return yaml.load(ss, **kwargs)\n",
       "        return next(iter(yaml.load_all(ss, **kwargs)), None)\n")],
     HEAD + '''
t = 'eft: E\\nbasis: B\\nscale: 1\\nvalues: {a: 1}\\n'
check(wcxf.WC.load(t).dict == {'a': 1}, 'one document')
try:
    wcxf.WC.load(t + '---\\n' + t.replace('1', '2'))
except Exception:
    pass
else:
    fail('accepted')
''')

seed('wr-conj', 'C20', 'two complex right-handed charged-current coefficients',
     'the exchange of two right-handed W currents lacks the conjugation of one '
     'coupling',
     [(MAS, """C["V8udRR"] = lambda C, p: C["ud8"]-g2b(C, p)**2/(p["m_W"]**2)*np.einsum('pt,rs',wr(C, p),wr(C, p).conjugate())
""", """C["V8udRR"] = lambda C, p: C["ud8"]-g2b(C, p)**2/(p["m_W"]**2)*np.einsum('pt,rs',wr(C, p),wr(C, p))
""")], SMEFT + """
a = 3e-3 + 4e-3j
w = smeft({'phiud_11': {'Re': a.real, 'Im': a.imag}}, 'Warsaw up')
d = w.match('WET', 'JMS').dict
for k in ('V1udRR_1111', 'V8udRR_1111'):
    check(k not in d or abs(d[k].imag) < 1e-9 * abs(d[k]), (k, d.get(k)))
""")

seed('close-warsaw', 'C17', 'coefficients below 1e-8 in units of GeV^-2, the '
     'natural size of new physics above 10 TeV', 'coefficients that numpy '
     'considers close to zero are dropped on translation to Warsaw-up',
     [(SME, "    return {k: v for k, v in C_out.items() if k in warsawup.all_wcs}",
       "    return {k: v for k, v in C_out.items() if k in warsawup.all_wcs and "
       "not np.isclose(v, 0)}")], SMEFT + """
d = smeft({'phiu_11': 3e-9, 'phiB': 1e-3}, 'Warsaw').translate('Warsaw up').dict
close(d.get('phiB', 0), 1e-3, 'phiB')
close(d.get('phiu_11', 0), 3e-9, 'phiu_11')
""")

seed('lfu-close', 'C23', 'electron and muon coefficients that differ by little',
     'charged-current coefficients are taken to be lepton flavour universal if '
     'they agree to one part in a thousand',
     [(EOS, "from collections import OrderedDict\n", "from collections import "
       "OrderedDict\nimport cmath\n"),
      (EOS, """            if wc.dict.get(k2.replace('lnu', 'enue'), 0) != wc.dict.get(k2.replace('lnu', 'munumu'), 0):
                raise ValueError("Found lepton flavour non-universal charged-current coefficients")
            return wc.dict.get(k2.replace('lnu', 'enue'), 0).real
""", """            if not cmath.isclose(wc.dict.get(k2.replace('lnu', 'enue'), 0), wc.dict.get(k2.replace('lnu', 'munumu'), 0), rel_tol=1e-3):
                raise ValueError("Found lepton flavour non-universal charged-current coefficients")
            return wc.dict.get(k2.replace('lnu', 'enue'), 0).real
""")], HEAD + '''
from wcxf.converters.eos import wcxf2eos
sm = {'b->clnu::Re{cVL}': {'central': 0.5, 'min': 0, 'max': 1}}
w = wcxf.WC('E', 'EOS', 4.2, {'b->cenue::cVL': 2, 'b->cmunumu::cVL': 2})
check(wcxf2eos(w, sm)['b->clnu::Re{cVL}']['min'] == 2.5, 'universal')
w = wcxf.WC('E', 'EOS', 4.2, {'b->cenue::cVL': 2, 'b->cmunumu::cVL': 2.0001})
try:
    r = wcxf2eos(w, sm)
except ValueError:
    pass
else:
    fail(r)
''')

seed('chrom-round', 'C30', 'dipole coefficients of realistic size',
     'dipole coefficients are dropped from the EOS result when they round to '
     'zero at ten digits',
     [(WET, """    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
    return {k: prefactor * v for k,v in dic.items()}


def JMS_to_FormFlavor_chrom""", """    prefactor = sqrt(2)/p['GF']/Vtb/Vts.conj()/4
    return {k: prefactor * v for k,v in dic.items() if round(abs(v), 10)}


def JMS_to_FormFlavor_chrom""")], JMS + '''
a = translate('EOS', {'dgamma_23': 1e-3})
b = translate('EOS', {'dgamma_23': 1e-14})
check(a and set(a) == set(b), (a, b))
for k in a:
    close(a[k], 1e11 * b[k], k, 1e-9)
''')
