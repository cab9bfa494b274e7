From 73a246072039fd5ead9b6e434b6b187dbe34421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 01/19] fix: pass user parameters on to the SMEFT basis
 translators

---
 wcxf/translators/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/translators/__init__.py b/wcxf/translators/__init__.py
index b432a7c..cba69fa 100644
--- a/wcxf/translators/__init__.py
+++ b/wcxf/translators/__init__.py
@@ -5,17 +5,17 @@ import wcxf
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw mass')
 def warsaw_to_warsawmass(C, scale, parameters):
-    return smeft.warsaw_to_warsawmass(C)
+    return smeft.warsaw_to_warsawmass(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw', 'Warsaw up')
 def warsaw_to_warsaw_up(C, scale, parameters):
-    return smeft.warsaw_to_warsaw_up(C)
+    return smeft.warsaw_to_warsaw_up(C, parameters)
 
 
 @wcxf.translator('SMEFT', 'Warsaw up', 'Warsaw')
 def warsaw_up_to_warsaw(C, scale, parameters):
-    return smeft.warsaw_up_to_warsaw(C)
+    return smeft.warsaw_up_to_warsaw(C, parameters)
 
 
 @wcxf.translator('WET', 'JMS', 'flavio')
-- 
2.43.0


From 8e36859adc2587dc4c3f9f7db2d8bf122aabd8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 02/19] fix: do not modify the parent basis when creating a
 child basis

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 7392821..087f964 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -222,7 +222,7 @@ class Basis(WCxf, NamedInstanceClass):
             setattr(self, k, v)
         if hasattr(self, 'parent'):
             try:
-                self.sectors = Basis[self.eft, self.parent].sectors
+                self.sectors = Basis[self.eft, self.parent].sectors.copy()
                 self.sectors.update(sectors)
             except (AttributeError, KeyError):
                 raise ValueError("Parent basis {} not found".format(self.parent))
-- 
2.43.0


From 611600d97ddbd69a059293c13aab14294f476a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 03/19] fix: do not register a basis whose parent basis cannot
 be found

---
 wcxf/classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 087f964..53512c8 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -217,7 +217,6 @@ class Basis(WCxf, NamedInstanceClass):
         """Instantiate the basis file object."""
         self.eft = eft
         self.basis = basis
-        super().__init__((eft, basis))
         for k, v in kwargs.items():
             setattr(self, k, v)
         if hasattr(self, 'parent'):
@@ -229,6 +228,7 @@ class Basis(WCxf, NamedInstanceClass):
         else:
             self.sectors = sectors
         self._all_wcs = None
+        super().__init__((eft, basis))
 
     @property
     def known_translators(self):
-- 
2.43.0


From 7bd5c3ad9f87fb9058fe46984c1e93f012f5c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 04/19] fix: reject unknown Wilson coefficients also when
 assertions are disabled

---
 wcxf/classes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 53512c8..03294a0 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -361,8 +361,8 @@ class WC(WCxf):
         except (AttributeError, KeyError):
             raise ValueError("Basis {} not defined for EFT {}".format(self.basis, self.eft))
         unknown_keys = set(self.values.keys()) - set(basis_instance.all_wcs)
-        assert unknown_keys == set(), \
-            "Wilson coefficients do not exist in this basis: " + str(unknown_keys)
+        if unknown_keys:
+            raise AssertionError("Wilson coefficients do not exist in this basis: " + str(unknown_keys))
 
     @property
     def dict(self):
-- 
2.43.0


From cb0892046a57e854f41308eb132291557144d150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 05/19] fix: clean up after a LaTeX check without latex
 executable or log file

---
 wcxf/classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 03294a0..189852a 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -73,6 +73,8 @@ def _testtex(s, delete=True):
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
         logging.warn('latex executable not found. Cannot check tex code')
+        if delete:
+            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -80,6 +82,7 @@ def _testtex(s, delete=True):
         res = {'success': False}
     logf = os.path.join(tmpd, 'textest.log')
     res['log'] = ''
+    logl = []
     try:
         with open(logf, 'r') as f:
             logl = f.readlines()
-- 
2.43.0


From 290d481d4e6d1c99bee0a302f8d445c12aa0ea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 06/19] fix: fill in missing scalar SMEFT coefficients as
 numbers

---
 wcxf/util/smeftutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/util/smeftutil.py b/wcxf/util/smeftutil.py
index 9d1dc82..057b54b 100644
--- a/wcxf/util/smeftutil.py
+++ b/wcxf/util/smeftutil.py
@@ -573,7 +573,7 @@ def add_missing(C):
     """Add arrays with zeros for missing Wilson coefficient keys"""
     C_out = C.copy()
     for k in (set(WC_keys) - set(C.keys())):
-        C_out[k] = np.zeros(C_keys_shape[k])
+        C_out[k] = 0 if C_keys_shape[k] == 1 else np.zeros(C_keys_shape[k])
     return C_out
 
 
-- 
2.43.0


From 1111f7640979663b00838f7a4f96611dc4a7fa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 07/19] fix: normalize left-handed lepton dipoles in FormFlavor
 basis to e

---
 wcxf/translators/wet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 7421d5a..a0df54c 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -865,7 +865,7 @@ def JMS_to_FormFlavor_chrom(C, qq, parameters):
         l2 = llflav[qq[1]]
         return {
             'CAR_' + qq : C['egamma'][l1, l2] / e,
-            'CAL_' + qq : C['egamma'][l2, l1].conj() / gs,
+            'CAL_' + qq : C['egamma'][l2, l1].conj() / e,
                 }
     if qq[0] in uflav.keys():
         u = uflav[qq[0]]
-- 
2.43.0


From 68ff3b4ab3e20fb48898446981298179b44ed9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 08/19] fix: use s -> d flavour indices for the FormFlavor sdnn
 coefficients

---
 wcxf/translators/wet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index a0df54c..b64b26d 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -714,12 +714,12 @@ def JMS_to_FormFlavor_lep(C, dd):
         'CSRL_' + dd + 'mm' : C["SedRL"][1, 1, b, s].conj(),
         'CTLL_' + dd + 'mm' : C["TedRR"][1, 1, b, s].conj(),
         'CTRR_' + dd + 'mm' : C["TedRR"][1, 1, s, b],
-        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLL"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLL"][2, 2, s-1, s],
-        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, s-1, s]
-                      + 1 / 3 * C["VnudLR"][1, 1, s-1, s]
-                      + 1 / 3 * C["VnudLR"][2, 2, s-1, s]
+        'CVLL_sdnn' : 1 / 3 * C["VnudLL"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLL"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLL"][2, 2, 0, 1],
+        'CVRL_sdnn' : 1 / 3 * C["VnudLR"][0, 0, 0, 1]
+                      + 1 / 3 * C["VnudLR"][1, 1, 0, 1]
+                      + 1 / 3 * C["VnudLR"][2, 2, 0, 1]
             }
 
 # chromomagnetic operators
-- 
2.43.0


From 13841dfa52491fb6e1d395a0566f35dd31919c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 09/19] fix: rotate left-handed down quarks also in dipole and
 S8ddRR coefficients

---
 wcxf/translators/wet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index b64b26d..55504f2 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -963,8 +963,11 @@ def rotate_down(C_in, p):
         C[k] = np.einsum('ia,jb,ijkl->abkl',
                          UdL.conj(), UdL,
                          C_in[k])
+    # type dL X
+    for k in ['dgamma', 'dG']:
+        C[k] = UdL.conj().T @ C_in[k]
     # type dL X dL X
-    for k in ['S1ddRR', ]:
+    for k in ['S1ddRR', 'S8ddRR']:
         C[k] = np.einsum('ia,kc,ijkl->ajcl',
                          UdL.conj(), UdL.conj(),
                          C_in[k])
-- 
2.43.0


From 266deda40ffefcc4eff5894bbc24522c32409a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:23 +0000
Subject: [PATCH 10/19] fix: only skip the running of m_c in the four-flavour
 theory

---
 wcxf/util/qcd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wcxf/util/qcd.py b/wcxf/util/qcd.py
index 8ccf8b2..6227df8 100644
--- a/wcxf/util/qcd.py
+++ b/wcxf/util/qcd.py
@@ -90,7 +90,7 @@ def m_b(mbmb, scale, f, alphasMZ=0.1185):
 def m_c(mcmc, scale, f, alphasMZ=0.1185):
     r"""Get running c quark mass in the MSbar scheme at the scale `scale`
     in the theory with `f` dynamical quark flavours starting from $m_c(m_c)$"""
-    if scale == mcmc:
+    if scale == mcmc and f == 4:
         return mcmc  # nothing to do
     _sane(scale, f)
     loop = 3
-- 
2.43.0


From 86a52020a51f67da920dd39495cc78c9314cd1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:59 +0000
Subject: [PATCH 11/19] fix: rotate left-handed down quarks also in baryon
 number violating coefficients

---
 wcxf/translators/wet.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/wcxf/translators/wet.py b/wcxf/translators/wet.py
index 55504f2..d6a09b3 100644
--- a/wcxf/translators/wet.py
+++ b/wcxf/translators/wet.py
@@ -987,6 +987,19 @@ def rotate_down(C_in, p):
         C[k] = np.einsum('ld,ijkl->ijkd',
                          UdL,
                          C_in[k])
+    # baryon number violating
+    for k in ['SuddLL']:
+        C[k] = np.einsum('jb,kc,ijkl->ibcl',
+                         UdL, UdL,
+                         C_in[k])
+    for k in ['SduuLL', 'SduuLR']:
+        C[k] = np.einsum('ia,ijkl->ajkl',
+                         UdL,
+                         C_in[k])
+    for k in ['SdudRL']:
+        C[k] = np.einsum('kc,ijkl->ijcl',
+                         UdL,
+                         C_in[k])
     return C
 
 
-- 
2.43.0


From 8d13b2cf5d324fd08334227ce28f58f56c7450d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:59 +0000
Subject: [PATCH 12/19] fix: report errors and exit status of wcxf subcommands

---
 wcxf/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index 6c35d27..f28dd11 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -75,10 +75,10 @@ def wcxf_cli():
     parser_validate.set_defaults(func=validate)
 
     args = parser.parse_args()
-    try:
-        args.func(args)
-    except AttributeError:
+    if not hasattr(args, 'func'):
         parser.print_help()
+        return
+    return args.func(args)
 
 
 def convert(args):
-- 
2.43.0


From ed3ac0d7c08d4fbc4e264e495e53cfa0a2956e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:59 +0000
Subject: [PATCH 13/19] fix: signal failed and unknown conversions in wcxf
 convert

---
 wcxf/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index f28dd11..c2c5e81 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -84,9 +84,12 @@ def wcxf_cli():
 def convert(args):
     from wcxf.converters.yamljson import convert_json, convert_yaml
     if args.FORMAT.lower() == 'json':
-        convert_json(args.FILE, args.output)
-    if args.FORMAT.lower() == 'yaml':
-        convert_yaml(args.FILE, args.output)
+        return convert_json(args.FILE, args.output)
+    elif args.FORMAT.lower() == 'yaml':
+        return convert_yaml(args.FILE, args.output)
+    else:
+        logging.error("FORMAT should be 'yaml' or 'json'")
+        return 1
 
 
 def translate(args):
-- 
2.43.0


From bb11b0f1051f1f54cec530a2ab1bab5063a04d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:12 +0000
Subject: [PATCH 14/19] fix: treat missing Wilson coefficients as zero in
 SMEFTsim param cards

---
 wcxf/converters/smeftsim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index e939bd3..d88e3c2 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -1,7 +1,8 @@
 """Functions to convert WCxf files to MadGraph param_cards for SMEFTsim."""
 
 from numpy import angle
-from collections import OrderedDict
+from collections import OrderedDict, defaultdict
+from types import SimpleNamespace
 from wcxf.converters.SMEFTsim_param_card_elements import *
 
 
@@ -89,6 +90,8 @@ def initialize_smeftsim_card(model_set):
 
 
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
+  # coefficients that are not present in the WCxf file vanish
+  wc = SimpleNamespace(dict=defaultdict(float, wc.dict))
 
   if model_set == 'A':
       # set block entries to WC values
-- 
2.43.0


From e6b53943319a7e79d210792160dc807eedbe9eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:54 +0000
Subject: [PATCH 15/19] fix: write to standard output when --output is given
 without a file name

---
 wcxf/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wcxf/cli.py b/wcxf/cli.py
index c2c5e81..2cb5e7f 100755
--- a/wcxf/cli.py
+++ b/wcxf/cli.py
@@ -23,7 +23,7 @@ def wcxf_cli():
                                 help="Input file. If \"-\", read from standard input")
     parser_convert.add_argument("--output", nargs='?',
                                       type=argparse.FileType('w'),
-                                      default=sys.stdout,
+                                      const=sys.stdout, default=sys.stdout,
                                       help="Output file. If absent, print to standard output")
     parser_convert.set_defaults(func=convert)
 
@@ -38,7 +38,7 @@ def wcxf_cli():
                                   default=sys.stdin,
                                   help="Input file. If \"-\", read from standard input")
     parser_translate.add_argument("--output", nargs='?',
-                                  type=argparse.FileType('w'), default=sys.stdout,
+                                  type=argparse.FileType('w'), const=sys.stdout, default=sys.stdout,
                                   help="Output file. If absent, print to standard output")
     parser_translate.add_argument("--format", type=str,
                                   default="json",
@@ -56,7 +56,7 @@ def wcxf_cli():
                               type=argparse.FileType('r'), default=sys.stdin,
                               help="Input file. If \"-\", read from standard input")
     parser_match.add_argument("--output", nargs='?',
-                              type=argparse.FileType('w'), default=sys.stdout,
+                              type=argparse.FileType('w'), const=sys.stdout, default=sys.stdout,
                               help="Output file. If absent, print to standard output")
     parser_match.add_argument("--format", type=str, default="json",
                               help="Output format (default: json)")
@@ -129,7 +129,7 @@ def eos():
     parser.add_argument("--eosprefix", help="Installation prefix for the EOS installation. Defaults to /usr",
                         default='/usr')
     parser.add_argument("--output", nargs='?', help="Output file. If absent, print to standard output",
-                        type=argparse.FileType('w'), default=sys.stdout)
+                        type=argparse.FileType('w'), const=sys.stdout, default=sys.stdout)
     parser.add_argument("--eoshome", help="EOS home directory. If specified, values will be written to EOSHOME/parameters/wcxf.yaml. Cannot be used simultaneously with output",
                         default=None)
     args = parser.parse_args()
-- 
2.43.0


From 0d99734e756ec7f10081c4bc14129201d7631456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:09 +0000
Subject: [PATCH 16/19] fix: remove the temporary directory of the LaTeX check
 also after unexpected errors

---
 wcxf/classes.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 189852a..84222d0 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -56,6 +56,16 @@ def _testtex(s, delete=True):
     """Function that takes a string and tries to compile a LaTeX file with
     the string as document body. Returns a dictionary with keys 'success'
     (True or False) and 'log', trying to extract the first error message."""
+    tmpd = tempfile.mkdtemp()
+    try:
+        return _runtex(s, tmpd)
+    finally:
+        if delete:
+            shutil.rmtree(tmpd)
+
+def _runtex(s, tmpd):
+    """Compile a LaTeX file with the string as document body in the directory
+    `tmpd`. Return value: see `_testtex`."""
     _preamble = r"""\documentclass{article}
     \usepackage{amsmath,amssymb}
     \begin{document}
@@ -63,7 +73,6 @@ def _testtex(s, delete=True):
     _enddoc = r"""
     \end{document}"""
     doc = _preamble + s + _enddoc
-    tmpd = tempfile.mkdtemp()
     tmpf = os.path.join(tmpd, 'textest.tex')
     with open(tmpf, 'w') as f:
         f.write(doc)
@@ -73,8 +82,6 @@ def _testtex(s, delete=True):
                            stdout=subprocess.DEVNULL)
     except FileNotFoundError:
         logging.warn('latex executable not found. Cannot check tex code')
-        if delete:
-            shutil.rmtree(tmpd)
         return {'success': True}
     if p.returncode == 0:
         res = {'success': True}
@@ -102,8 +109,6 @@ def _testtex(s, delete=True):
                 l = logl[i]
             except IndexError:
                 break
-    if delete:
-        shutil.rmtree(tmpd)
     return res
 
 
-- 
2.43.0


From 38d32a9849beedaaace13b4db655cf858fe5a3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:16 +0000
Subject: [PATCH 17/19] fix: print tables of bases with empty coefficient
 entries

---
 wcxf/classes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wcxf/classes.py b/wcxf/classes.py
index 84222d0..87fcaa1 100644
--- a/wcxf/classes.py
+++ b/wcxf/classes.py
@@ -309,6 +309,7 @@ class Basis(WCxf, NamedInstanceClass):
                 # fractions of line width (default: 72)
                 md += "|" + 18 * "-" + "|" + 48 * "-" + "|" + 6 * "-" + "|\n"
                 for name, d in wcs.items():
+                    d = d or {}
                     if 'real' not in d or not d['real']:
                         t = 'C'
                     else:
-- 
2.43.0


From d83d620620b05c0fc089f1b563b8040505853193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:31 +0000
Subject: [PATCH 18/19] fix: keep the sign of real coefficients in the SMEFTsim
 card

The flavour-diagonal phi-fermion coefficients (and ee_3333 in set A) are
real and have no phase entry, but their absolute value was written.
---
 wcxf/converters/smeftsim.py | 86 ++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 43 deletions(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index d88e3c2..c271a24 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -742,48 +742,48 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
 	  [644, format(wc.dict['phiBtilde'] * lambda_smeft_value**2,'.6e'), '# cHBtil'],
 	  [645, format(wc.dict['phiWB'] * lambda_smeft_value**2,'.6e'), '# cHWB'],
 	  [646, format(wc.dict['phiWtildeB'] * lambda_smeft_value**2,'.6e'), '# cHWBtil'],
-	  [647, format(abs(wc.dict['phil1_11']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
+	  [647, format(wc.dict['phil1_11'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs11'],
 	  [648, format(abs(wc.dict['phil1_12']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs12'],
 	  [649, format(abs(wc.dict['phil1_13']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs13'],
-	  [650, format(abs(wc.dict['phil1_22']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
+	  [650, format(wc.dict['phil1_22'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs22'],
 	  [651, format(abs(wc.dict['phil1_23']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs23'],
-	  [652, format(abs(wc.dict['phil1_33']) * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
-	  [653, format(abs(wc.dict['phil3_11']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
+	  [652, format(wc.dict['phil1_33'] * lambda_smeft_value**2,'.6e'), '# cHl1Abs33'],
+	  [653, format(wc.dict['phil3_11'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs11'],
 	  [654, format(abs(wc.dict['phil3_12']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs12'],
 	  [655, format(abs(wc.dict['phil3_13']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs13'],
-	  [656, format(abs(wc.dict['phil3_22']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
+	  [656, format(wc.dict['phil3_22'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs22'],
 	  [657, format(abs(wc.dict['phil3_23']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs23'],
-	  [658, format(abs(wc.dict['phil3_33']) * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
-	  [659, format(abs(wc.dict['phiq1_11']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
+	  [658, format(wc.dict['phil3_33'] * lambda_smeft_value**2,'.6e'), '# cHl3Abs33'],
+	  [659, format(wc.dict['phiq1_11'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs11'],
 	  [660, format(abs(wc.dict['phiq1_12']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs12'],
 	  [661, format(abs(wc.dict['phiq1_13']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs13'],
-	  [662, format(abs(wc.dict['phiq1_22']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
+	  [662, format(wc.dict['phiq1_22'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs22'],
 	  [663, format(abs(wc.dict['phiq1_23']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs23'],
-	  [664, format(abs(wc.dict['phiq1_33']) * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
-	  [665, format(abs(wc.dict['phiq3_11']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
+	  [664, format(wc.dict['phiq1_33'] * lambda_smeft_value**2,'.6e'), '# cHq1Abs33'],
+	  [665, format(wc.dict['phiq3_11'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs11'],
 	  [666, format(abs(wc.dict['phiq3_12']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs12'],
 	  [667, format(abs(wc.dict['phiq3_13']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs13'],
-	  [668, format(abs(wc.dict['phiq3_22']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
+	  [668, format(wc.dict['phiq3_22'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs22'],
 	  [669, format(abs(wc.dict['phiq3_23']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs23'],
-	  [670, format(abs(wc.dict['phiq3_33']) * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
-	  [671, format(abs(wc.dict['phie_11']) * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
+	  [670, format(wc.dict['phiq3_33'] * lambda_smeft_value**2,'.6e'), '# cHq3Abs33'],
+	  [671, format(wc.dict['phie_11'] * lambda_smeft_value**2,'.6e'), '# cHeAbs11'],
 	  [672, format(abs(wc.dict['phie_12']) * lambda_smeft_value**2,'.6e'), '# cHeAbs12'],
 	  [673, format(abs(wc.dict['phie_13']) * lambda_smeft_value**2,'.6e'), '# cHeAbs13'],
-	  [674, format(abs(wc.dict['phie_22']) * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
+	  [674, format(wc.dict['phie_22'] * lambda_smeft_value**2,'.6e'), '# cHeAbs22'],
 	  [675, format(abs(wc.dict['phie_23']) * lambda_smeft_value**2,'.6e'), '# cHeAbs23'],
-	  [676, format(abs(wc.dict['phie_33']) * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
-	  [677, format(abs(wc.dict['phiu_11']) * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
+	  [676, format(wc.dict['phie_33'] * lambda_smeft_value**2,'.6e'), '# cHeAbs33'],
+	  [677, format(wc.dict['phiu_11'] * lambda_smeft_value**2,'.6e'), '# cHuAbs11'],
 	  [678, format(abs(wc.dict['phiu_12']) * lambda_smeft_value**2,'.6e'), '# cHuAbs12'],
 	  [679, format(abs(wc.dict['phiu_13']) * lambda_smeft_value**2,'.6e'), '# cHuAbs13'],
-	  [680, format(abs(wc.dict['phiu_22']) * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
+	  [680, format(wc.dict['phiu_22'] * lambda_smeft_value**2,'.6e'), '# cHuAbs22'],
 	  [681, format(abs(wc.dict['phiu_23']) * lambda_smeft_value**2,'.6e'), '# cHuAbs23'],
-	  [682, format(abs(wc.dict['phiu_33']) * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
-	  [683, format(abs(wc.dict['phid_11']) * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
+	  [682, format(wc.dict['phiu_33'] * lambda_smeft_value**2,'.6e'), '# cHuAbs33'],
+	  [683, format(wc.dict['phid_11'] * lambda_smeft_value**2,'.6e'), '# cHdAbs11'],
 	  [684, format(abs(wc.dict['phid_12']) * lambda_smeft_value**2,'.6e'), '# cHdAbs12'],
 	  [685, format(abs(wc.dict['phid_13']) * lambda_smeft_value**2,'.6e'), '# cHdAbs13'],
-	  [686, format(abs(wc.dict['phid_22']) * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
+	  [686, format(wc.dict['phid_22'] * lambda_smeft_value**2,'.6e'), '# cHdAbs22'],
 	  [687, format(abs(wc.dict['phid_23']) * lambda_smeft_value**2,'.6e'), '# cHdAbs23'],
-	  [688, format(abs(wc.dict['phid_33']) * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
+	  [688, format(wc.dict['phid_33'] * lambda_smeft_value**2,'.6e'), '# cHdAbs33'],
 	  [689, format(wc.dict['ll_1111'] * lambda_smeft_value**2,'.6e'), '# cllAbs1111'],
 	  [690, format(wc.dict['ll_1122'] * lambda_smeft_value**2,'.6e'), '# cllAbs1122'],
 	  [691, format(wc.dict['ll_1221'] * lambda_smeft_value**2,'.6e'), '# cllAbs1221'],
@@ -961,7 +961,7 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
           [863, format(wc.dict['ee_2222'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2222'], 
           [864, format(wc.dict['ee_2233'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs2233'], 
           [865, format(abs(wc.dict['ee_1112']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1112'], 
-          [866, format(abs(wc.dict['ee_3333']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
+          [866, format(wc.dict['ee_3333'] * lambda_smeft_value**2,'.6e'),      '# ceeAbs3333'], 
           [867, format(abs(wc.dict['ee_1123']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1123'], 
           [868, format(abs(wc.dict['ee_1113']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1113'], 
           [869, format(abs(wc.dict['ee_1213']) * lambda_smeft_value**2,'.6e'),      '# ceeAbs1213'], 
@@ -2706,66 +2706,66 @@ def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_val
   elif model_set == 'B':
       
       card['Block']['FRBlock'] = {'values': [
-	[1, format(abs(wc.dict['phil1_11']* lambda_smeft_value**2), '.6e') , '# cHl1Abs11'],
+	[1, format(wc.dict['phil1_11']* lambda_smeft_value**2, '.6e') , '# cHl1Abs11'],
 	[2, format(abs(wc.dict['phil1_12']* lambda_smeft_value**2), '.6e') , '# cHl1Abs12'],
 	[3, format(abs(wc.dict['phil1_13']* lambda_smeft_value**2), '.6e') , '# cHl1Abs13'],
-	[4, format(abs(wc.dict['phil1_22']* lambda_smeft_value**2), '.6e') , '# cHl1Abs22'],
+	[4, format(wc.dict['phil1_22']* lambda_smeft_value**2, '.6e') , '# cHl1Abs22'],
 	[5, format(abs(wc.dict['phil1_23']* lambda_smeft_value**2), '.6e') , '# cHl1Abs23'],
-	[6, format(abs(wc.dict['phil1_33']* lambda_smeft_value**2), '.6e') , '# cHl1Abs33'],
+	[6, format(wc.dict['phil1_33']* lambda_smeft_value**2, '.6e') , '# cHl1Abs33'],
 	[7, format(angle(wc.dict['phil1_12']), '.6e') , '# cHl1Ph12'],
 	[8, format(angle(wc.dict['phil1_13']), '.6e') , '# cHl1Ph13'],
 	[9, format(angle(wc.dict['phil1_23']), '.6e') , '# cHl1Ph23'],
-	[10, format(abs(wc.dict['phil3_11']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs11'], 
+	[10, format(wc.dict['phil3_11']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs11'], 
 	[11, format(abs(wc.dict['phil3_12']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs12'], 
 	[12, format(abs(wc.dict['phil3_13']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs13'], 
-	[13, format(abs(wc.dict['phil3_22']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs22'], 
+	[13, format(wc.dict['phil3_22']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs22'], 
 	[14, format(abs(wc.dict['phil3_23']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs23'], 
-	[15, format(abs(wc.dict['phil3_33']* lambda_smeft_value**2), '.6e') ,'# cHL3Abs33'], 
+	[15, format(wc.dict['phil3_33']* lambda_smeft_value**2, '.6e') ,'# cHL3Abs33'], 
 	[16, format(angle(wc.dict['phil3_12']), '.6e') ,'# cHL3Ph12'], 
 	[17, format(angle(wc.dict['phil3_13']), '.6e') ,'# cHL3Ph13'], 
 	[18, format(angle(wc.dict['phil3_23']), '.6e') ,'# cHL3Ph23'], 
-	[19, format(abs(wc.dict['phiq1_11']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs11'], 
+	[19, format(wc.dict['phiq1_11']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs11'], 
 	[20, format(abs(wc.dict['phiq1_12']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs12'], 
 	[21, format(abs(wc.dict['phiq1_13']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs13'], 
-	[22, format(abs(wc.dict['phiq1_22']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs22'], 
+	[22, format(wc.dict['phiq1_22']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs22'], 
 	[23, format(abs(wc.dict['phiq1_23']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs23'], 
-	[24, format(abs(wc.dict['phiq1_33']* lambda_smeft_value**2), '.6e') ,'# cHq1Abs33'], 
+	[24, format(wc.dict['phiq1_33']* lambda_smeft_value**2, '.6e') ,'# cHq1Abs33'], 
 	[25, format(angle(wc.dict['phiq1_12']), '.6e') ,'# cHq1Ph12'], 
 	[26, format(angle(wc.dict['phiq1_13']), '.6e') ,'# cHq1Ph13'], 
 	[27, format(angle(wc.dict['phiq1_23']), '.6e') ,'# cHq1Ph23'], 
-	[28, format(abs(wc.dict['phiq3_11']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs11'], 
+	[28, format(wc.dict['phiq3_11']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs11'], 
 	[29, format(abs(wc.dict['phiq3_12']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs12'], 
 	[30, format(abs(wc.dict['phiq3_13']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs13'], 
-	[31, format(abs(wc.dict['phiq3_22']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs22'], 
+	[31, format(wc.dict['phiq3_22']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs22'], 
 	[32, format(abs(wc.dict['phiq3_23']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs23'], 
-	[33, format(abs(wc.dict['phiq3_33']* lambda_smeft_value**2), '.6e') ,'# cHQ3Abs33'], 
+	[33, format(wc.dict['phiq3_33']* lambda_smeft_value**2, '.6e') ,'# cHQ3Abs33'], 
 	[34, format(angle(wc.dict['phiq3_12']), '.6e') ,'# cHQ3Ph12'], 
 	[35, format(angle(wc.dict['phiq3_13']), '.6e') ,'# cHQ3Ph13'], 
 	[36, format(angle(wc.dict['phiq3_23']), '.6e') ,'# cHQ3Ph23'], 
-	[37, format(abs(wc.dict['phiu_11']* lambda_smeft_value**2), '.6e') ,'# cHuAbs11'], 
+	[37, format(wc.dict['phiu_11']* lambda_smeft_value**2, '.6e') ,'# cHuAbs11'], 
 	[38, format(abs(wc.dict['phiu_12']* lambda_smeft_value**2), '.6e') ,'# cHuAbs12'], 
 	[39, format(abs(wc.dict['phiu_13']* lambda_smeft_value**2), '.6e') ,'# cHuAbs13'], 
-	[40, format(abs(wc.dict['phiu_22']* lambda_smeft_value**2), '.6e') ,'# cHuAbs22'], 
+	[40, format(wc.dict['phiu_22']* lambda_smeft_value**2, '.6e') ,'# cHuAbs22'], 
 	[41, format(abs(wc.dict['phiu_23']* lambda_smeft_value**2), '.6e') ,'# cHuAbs23'], 
-	[42, format(abs(wc.dict['phiu_33']* lambda_smeft_value**2), '.6e') ,'# cHuAbs33'], 
+	[42, format(wc.dict['phiu_33']* lambda_smeft_value**2, '.6e') ,'# cHuAbs33'], 
 	[43, format(angle(wc.dict['phiu_12']), '.6e') ,'# cHuPh12'], 
 	[44, format(angle(wc.dict['phiu_13']), '.6e') ,'# cHuPh13'], 
 	[45, format(angle(wc.dict['phiu_23']), '.6e') ,'# cHuPh23'], 
-	[46, format(abs(wc.dict['phid_11']* lambda_smeft_value**2), '.6e') ,'# cHdAbs11'], 
+	[46, format(wc.dict['phid_11']* lambda_smeft_value**2, '.6e') ,'# cHdAbs11'], 
 	[47, format(abs(wc.dict['phid_12']* lambda_smeft_value**2), '.6e') ,'# cHdAbs12'], 
 	[48, format(abs(wc.dict['phid_13']* lambda_smeft_value**2), '.6e') ,'# cHdAbs13'], 
-	[49, format(abs(wc.dict['phid_22']* lambda_smeft_value**2), '.6e') ,'# cHdAbs22'], 
+	[49, format(wc.dict['phid_22']* lambda_smeft_value**2, '.6e') ,'# cHdAbs22'], 
 	[50, format(abs(wc.dict['phid_23']* lambda_smeft_value**2), '.6e') ,'# cHdAbs23'], 
-	[51, format(abs(wc.dict['phid_33']* lambda_smeft_value**2), '.6e') ,'# cHdAbs33'], 
+	[51, format(wc.dict['phid_33']* lambda_smeft_value**2, '.6e') ,'# cHdAbs33'], 
 	[52, format(angle(wc.dict['phid_12']), '.6e') ,'# cHdPh12'], 
 	[53, format(angle(wc.dict['phid_13']), '.6e') ,'# cHdPh13'], 
 	[54, format(angle(wc.dict['phid_23']), '.6e') ,'# cHdPh23'], 
-	[55, format(abs(wc.dict['phie_11']* lambda_smeft_value**2), '.6e') ,'# cHeAbs11'], 
+	[55, format(wc.dict['phie_11']* lambda_smeft_value**2, '.6e') ,'# cHeAbs11'], 
 	[56, format(abs(wc.dict['phie_12']* lambda_smeft_value**2), '.6e') ,'# cHeAbs12'], 
 	[57, format(abs(wc.dict['phie_13']* lambda_smeft_value**2), '.6e') ,'# cHeAbs13'], 
-	[58, format(abs(wc.dict['phie_22']* lambda_smeft_value**2), '.6e') ,'# cHeAbs22'], 
+	[58, format(wc.dict['phie_22']* lambda_smeft_value**2, '.6e') ,'# cHeAbs22'], 
 	[59, format(abs(wc.dict['phie_23']* lambda_smeft_value**2), '.6e') ,'# cHeAbs23'], 
-	[60, format(abs(wc.dict['phie_33']* lambda_smeft_value**2), '.6e') ,'# cHeAbs33'], 
+	[60, format(wc.dict['phie_33']* lambda_smeft_value**2, '.6e') ,'# cHeAbs33'], 
 	[61, format(angle(wc.dict['phie_12']), '.6e') ,'# cHePh12'], 
 	[62, format(angle(wc.dict['phie_13']), '.6e') ,'# cHePh13'], 
 	[63, format(angle(wc.dict['phie_23']), '.6e') ,'# cHePh23'], 
-- 
2.43.0


From 50ab1db56f6a0359b6ec8f907ebbadaa33692aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:38 +0000
Subject: [PATCH 19/19] fix: write real coefficients given as Re/Im mapping as
 real numbers in the SMEFTsim card

Such values are complex numbers, which were formatted as e.g.
1.000000e+00+0.000000e+00j, not readable in a parameter card.
---
 wcxf/converters/smeftsim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wcxf/converters/smeftsim.py b/wcxf/converters/smeftsim.py
index c271a24..b701b0c 100644
--- a/wcxf/converters/smeftsim.py
+++ b/wcxf/converters/smeftsim.py
@@ -90,8 +90,10 @@ def initialize_smeftsim_card(model_set):
 
 
 def smeftsim_card_fill(card, wc, model_set, lambda_smeft_value, input_scheme_value):
+  # real coefficients can be given as complex numbers without imaginary part
+  values = {k: v if v.imag else v.real for k, v in wc.dict.items()}
   # coefficients that are not present in the WCxf file vanish
-  wc = SimpleNamespace(dict=defaultdict(float, wc.dict))
+  wc = SimpleNamespace(dict=defaultdict(float, values))
 
   if model_set == 'A':
       # set block entries to WC values
-- 
2.43.0

