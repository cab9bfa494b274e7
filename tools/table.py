CLS = 'wcxf/classes.py'
TRI, TRS, TRW = ('wcxf/translators/__init__.py', 'wcxf/translators/smeft.py',
                 'wcxf/translators/wet.py')
MAI, MAS = 'wcxf/matchers/__init__.py', 'wcxf/matchers/smeft.py'
UTIL, QCD = 'wcxf/util/smeftutil.py', 'wcxf/util/qcd.py'
CLI = 'wcxf/cli.py'
SIM, CARD = ('wcxf/converters/smeftsim.py',
             'wcxf/converters/SMEFTsim_param_card_elements.py')
EOS, YJ = 'wcxf/converters/eos.py', 'wcxf/converters/yamljson.py'
GEN = ('Conditions that test whether a form in the Wilson coefficients '
       'vanishes are decided generically (non-zero) unless stated.')

prop('C01', 'Coefficient values keep their exact real and imaginary parts',
     """For every coefficient file, reading a value gives exactly the number it
     denotes (a plain number or numeric string, or a mapping with optional real
     and imaginary parts, an absent part being zero), and storing a numeric
     result gives a plain real number exactly if the imaginary part vanishes
     and otherwise a mapping with both parts as plain real numbers. The
     conversion does not change the stored values, and repeated reads agree.""",
     ['inputs'], 'every coefficient name and every real or complex value in '
     'every accepted spelling, including numpy scalars as numeric results',
     """The tests read a few hand-written files; sign, order, missing part,
     zero-imaginary and numpy cases for arbitrary values are not sampled.""",
     [CLS], [('value to number', CLS + ': WC._to_number, WC.dict'),
             ('number to value', CLS + ': WC._to_complex_dict, dict2values')],
     """Sound for all finite values: the parts are abstract reals and the
     trace is partitioned on whether each vanishes. Float rounding and the
     number formats of json/yaml are outside the model.""")

prop('C02', 'Coefficient files are accepted iff EFT, basis and names are known',
     """Validating a coefficient file succeeds exactly if its EFT is
     registered, a basis of that name is registered for that EFT, and every
     coefficient name it contains is defined in some sector of that basis; in
     all other cases an exception is raised. This holds also when Python
     runs with assertions disabled.""",
     ['inputs', 'configurations'], 'all registry contents and coefficient '
     'sets, interpreter with and without -O',
     """The tests validate a handful of files against one registry state with
     assertions enabled.""",
     [CLS], [('validation', CLS + ': WC.validate'),
             ('list of names', CLS + ': Basis.all_wcs')],
     """Names are compared only for equality, so the finite family of
     set-overlap shapes analysed stands for arbitrary names.""")

prop('C03', 'Basis files are accepted iff consistent with their EFT',
     """Validating a basis file succeeds exactly if its EFT is registered, all
     its sectors are sectors of that EFT, no coefficient name occurs in two
     sectors, and compiling a LaTeX document that contains the TeX code of
     every coefficient reports no failure (no LaTeX installation counts as no
     failure); otherwise it raises a ValueError.""",
     ['inputs', 'fault_sequences'], 'all basis and EFT contents, every outcome '
     'of the external LaTeX run (success, failure, executable missing, log '
     'file missing)',
     """The tests have no LaTeX failure path and only a few bases.""",
     [CLS], [('validation', CLS + ': Basis.validate'),
             ('LaTeX run', CLS + ': _testtex')],
     """The LaTeX program is modelled by its exit status and log file.""")

prop('C04', 'A child basis inherits its parent\'s sectors without altering it',
     """A basis that names a parent has exactly the parent's sectors, with its
     own sectors added and replacing those of the same name. Creating it changes
     neither the parent nor any other basis, and a basis whose parent is
     unknown in its EFT is rejected with a ValueError and does not become
     available.""",
     ['inputs', 'histories'], 'all parent/child sector overlaps, chains of '
     'generations and numbers of children, in any creation order',
     """No shipped test defines child bases with overlapping sectors or a
     missing parent, nor looks at the parent afterwards.""",
     [CLS, 'wcxf/__init__.py'], [('inheritance', CLS + ': Basis.__init__')],
     """All overlap shapes of up to three sectors and three generations.""")

prop('C05', 'Name lookup always yields the latest live registration',
     """For EFTs, bases, translators and matchers, looking up a name gives the
     object registered last under exactly that name and kind unless it was
     deleted or the kind was cleared, in which case the lookup fails; the kinds
     do not interfere. The lists of known bases and translators of an EFT or
     basis contain exactly the matching registered names.""",
     ['histories'], 'every sequence of registrations, re-registrations, failed '
     'constructions, lookups, deletions and clearings',
     """Tests follow one fixed import-time history.""",
     [CLS], [('registry', CLS + ': NamedInstanceClass, '
              'NamedInstanceMetaclass'),
             ('lists', CLS + ': EFT.known_bases, known_translators')],
     """Histories up to the explored length over two names per kind (names are
     only compared); once at least one basis and one translator exist.""")

prop('C06', 'Translation and matching pass values, scale and parameters intact',
     """Translating or matching a coefficient file applies the function
     registered for exactly that source and target once to its coefficients,
     scale and the caller's parameters, and returns a new coefficient file with
     the target EFT and basis, the same scale, and exactly the non-vanishing
     results with unchanged values. Without a registered route a ValueError is
     raised, and all documented built-in routes exist.""",
     ['inputs'], 'all coefficient values, scales, parameters and registered '
     'functions; all target names',
     """Tests call a few built-in routes and compare selected numbers.""",
     [CLS, TRI, MAI],
     [('entry points', CLS + ': WC.translate, WC.match'),
      ('application', CLS + ': Translator.translate, Matcher.match'),
      ('registration', TRI + ', ' + MAI)],
     """The registered function is an arbitrary abstract function; outputs are
     abstract and partitioned on vanishing.""")

prop('C07', 'Dumping and reloading a file object reproduces its content',
     """For every EFT, basis and coefficient file object and both output
     formats (format names in any case), the text that is returned or written
     to the given stream loads back to an object with the same EFT, basis,
     scale, sectors, values and additional metadata, and contains no internal
     state, also after the object has been used. An unknown format name raises a
     ValueError; further formatting options given by the caller take effect.""",
     ['inputs', 'histories'], 'all contents, names and metadata; any use of the '
     'object before the dump',
     """Tests dump and reload one or two objects.""",
     [CLS], [('dump', CLS + ': WCxf.dump, _dump_json'),
             ('load', CLS + ': WCxf.load, _load_yaml_json')],
     """json and yaml are modelled as faithful serialisers of plain data that
     record what they are given; their own escaping is trusted.""")

prop('C08', 'JSON/YAML conversion preserves content and signals failure',
     """Converting a file between JSON and YAML writes, to the requested
     output only, one document in the requested format with exactly the content
     of the input (all names, numbers, nesting and empty entries), for every
     kind of WCxf file. Input that is not valid in the expected format and
     unknown format names give a non-zero exit status.""",
     ['inputs', 'fault_sequences'], 'all documents, valid or not, from '
     'file or standard input, all format names',
     """Tests convert one example in each direction and do not look at
     failures.""",
     [YJ, CLS, CLI], [('conversion', YJ + ': convert_json, convert_yaml'),
                      ('parsing/writing', CLS + ': _yaml_to_json, '
                       '_json_to_yaml, _dump_json'),
                      ('command', CLI + ': convert')],
     """json/yaml libraries are trusted as serialisers and parsers.""")

prop('C09', 'The wcxf command does what was asked or exits with an error',
     """Each subcommand reads the given file (standard input if none or "-"),
     applies exactly the requested validation, translation or matching, writes
     the resulting coefficient file once in the requested format (default JSON)
     to the requested output (default standard output), and ends with exit
     status 0. If the input cannot be read or parsed, is not a file of the
     required kind or (when validating) fails the validation, or the route,
     type or format is unknown, the process ends with a non-zero status and
     does not report success.""",
     ['inputs', 'fault_sequences'], 'all command lines and file contents',
     """Tests run a few successful commands.""",
     [CLI, CLS], [('dispatch', CLI + ': wcxf_cli, convert, translate, match, '
                   'validate')],
     """argparse is modelled (options, nargs, defaults, FileType); every
     subcommand with every option and outcome class is analysed.""")

prop('C10', 'User-supplied parameters replace the defaults on every route',
     """On every translation and matching route the result depends on each
     Standard Model parameter (masses, couplings, CKM inputs) supplied by the
     caller exactly as it would if that value were the package default;
     parameters not supplied keep their default. In particular no supplied
     value, not even zero, is ignored, on no route.""",
     ['inputs', 'configurations'], 'all parameter sets: complete, partial, '
     'with further entries, empty or absent; all routes',
     """Tests never pass parameters to most routes.""",
     [TRW, TRS, MAS, MAI, TRI, 'wcxf/parameters.py'],
     [('merging with defaults', 'parameters.p.copy(); update in ' + TRW + ', '
       + TRS + ', ' + MAS)],
     """Exact forms in abstract parameters. For the SMEFT matching routes the
     weak mixing angle is a rational point, the result is first order in the
     coefficients, and the quick tier uses a thinned coefficient set. """ + GEN)

prop('C11', 'Routes are pure: no effect on inputs, defaults or later calls',
     """The result of a translation or matching depends only on the input
     coefficients, scale and parameters: it is the same as in a fresh process
     whatever was computed before and whatever was done to earlier results.
     No route changes the caller's coefficients or parameters, the default
     parameters, the registered bases or the set of registered routes.""",
     ['histories'], 'all sequences of route calls with differing inputs, scales '
     'and parameters',
     """Tests call each route once or twice on fresh data.""",
     [TRW, TRS, MAS, UTIL, QCD, 'wcxf/parameters.py', CLS],
     [('copies of defaults', TRW + ', ' + TRS + ', ' + MAS),
      ('caches', QCD + ' lru_cache; module tables in ' + UTIL)],
     """Effect analysis along call sequences (every route twice with changed
     arguments, others interleaved), structural snapshots in between.""")

prop('C12', 'Absent coefficients count as zero on every route',
     """On every translation and matching route, leaving a coefficient out of
     the input gives exactly the same result as giving it as zero, for
     every subset of coefficients including the empty one; no route fails
     because coefficients are absent.""",
     ['inputs'], 'all subsets of the coefficients of the source basis, on all '
     'routes',
     """Tests use a few fixed sparse inputs.""",
     [TRW, TRS, MAS, UTIL], [('defaults for absent coefficients',
                              UTIL + ': add_missing, wcxf2arrays; '
                              'C.get/defaultdict in ' + TRW)],
     """Forms for complete input, with absent atoms set to zero, against the
     analysis of partial inputs; subsets from a separating family (every pair
     of coefficients separated), not all 2^n. """ + GEN)

prop('C13', 'Different routes to the same basis agree',
     """Going from JMS to flavio directly or through Bern, from flavio to Bern
     and back, from FlavorKit to flavio directly or through JMS, and from the
     SMEFT to a low-energy basis in one step or through the individual
     translation and matching steps gives the same coefficients for every
     input. (Neutrino s to d modes are not part of the Bern basis.)""",
     ['inputs'], 'all coefficient values and scales, in each of the five-, '
     'four- and three-flavour theories',
     """Tests compare one or two chains on one random point.""",
     [TRW, TRI, MAI, MAS, TRS], [('chains', TRI + ', ' + MAI)],
     """Exact linear forms in all coefficients, abstract CKM, parameters and
     scale; rational CKM and mixing angle for the SMEFT chains. """ + GEN)

prop('C14', 'JMS to flavio and Bern match the operator definitions',
     """For the coefficients of semileptonic, radiative, leptonic,
     meson-mixing and lepton-flavour-violating operators, the translation from
     JMS to flavio and to Bern gives for every input the coefficients that
     describe the same effective Lagrangian according to the operator
     definitions of the bases (flavour indices, signs, conjugation and
     normalisation factors), and none is lost or added.""",
     ['inputs'], 'all coefficient values, parameters and scales; all flavours; '
     'five-, four- and three-flavour theories',
     """Tests check a few entries against fixed numbers.""",
     [TRW], [('sector translations', TRW + ': JMS_to_flavio, JMS_to_Bern and '
              'the sector functions they call')],
     """Every output form compared with an independent derivation (Fierz and
     colour identities); redundant flavour components use either choice of
     representative. """ + GEN)

prop('C15', 'JMS to Bern four-quark operators obey Fierz and colour identities',
     """For all flavour structures of non-leptonic four-quark operators in the
     five-, four- and three-flavour theories, the translation from JMS to Bern
     preserves the effective Lagrangian: each Bern coefficient is the
     combination of JMS coefficients fixed by the Fierz and colour identities,
     with nothing lost or double counted.""",
     ['inputs'], 'all coefficient values and all flavour structures',
     """Tests check one numerical point with tolerance.""",
     [TRW], [('four-quark sectors', TRW + ': _JMS_to_Fierz*, _Fierz_to_Bern '
              'families')],
     """Exact linear forms for every output. """ + GEN)

prop('C16', 'FlavorKit and JMS translations are inverse index relabellings',
     """Every FlavorKit coefficient goes to the JMS coefficient(s) given by the
     chirality and flavour rule of the two bases with the right conjugation and
     normalisation, and translating back reproduces the original
     coefficients.""",
     ['inputs'], 'all coefficient values', 'Tests look at few coefficients.',
     [TRW, 'wcxf/data/flavorkit_jms.json',
      'wcxf/data/flavorkit_jms_conj.json'],
     [('tables', 'wcxf/data/flavorkit_jms*.json'),
      ('use', TRW + ': FlavorKit_to_JMS, JMS_to_FlavorKit')],
     """Exact forms for every coefficient of both bases.""")

prop('C17', 'Warsaw and Warsaw-up differ by the CKM rotation of quark doublets',
     """Translating between the Warsaw basis with aligned down quarks and the
     one with aligned up quarks rotates every quark-doublet index, and no
     other index, by the CKM matrix (its adjoint in the other direction), for
     every operator; the two directions are inverse to each other.""",
     ['inputs'], 'all coefficient values and all unitary CKM matrices',
     """Tests do one round trip on a random point.""",
     [TRS, UTIL], [('rotation', TRS + ': warsaw_to_warsaw_up, '
                    'warsaw_up_to_warsaw; ' + UTIL + ': flavor_rotation')],
     """Exact forms with nine independent abstract CKM elements.""")

prop('C18', 'Warsaw to Warsaw-mass diagonalises the up sector and neutrinos',
     """Translating to the mass basis rotates the quark-doublet index of
     up-type Yukawa-like and dipole coefficients by the CKM matrix, turns the
     neutrino-mass operator into the diagonal matrix of its singular values, and
     leaves every other coefficient unchanged.""",
     ['inputs'], 'all coefficient values and CKM matrices',
     'Tests look at one point.', [TRS], [('translation', TRS +
                                          ': warsaw_to_warsawmass')],
     """Exact forms; the singular value decomposition is uninterpreted.""")

prop('C19', 'Symmetries restore the redundant SMEFT flavour components',
     """Whatever non-redundant SMEFT coefficients are given, the full flavour
     tensors the package computes with have exactly the hermiticity and
     exchange symmetries of their operators, and reduce back to the given
     coefficients.""",
     ['inputs'], 'all coefficient values (real and complex), all operators',
     'Tests have one random round trip.', [UTIL, TRS],
     [('symmetrisation', UTIL + ': symmetrize, scale_dict, unscale_dict, '
       'definitions of the symmetry classes')],
     """Exact forms for every component, compared with symmetries derived from
     the field content.""")

prop('C20', 'SMEFT to WET matching obeys the tree-level matching conditions',
     """Matching from the SMEFT to the low-energy theory gives every
     low-energy coefficient as the complete tree-level matching condition, to
     first order in the SMEFT coefficients (second order for the exchange of
     two right-handed W currents): contact terms, W and Z exchange
     with modified couplings, dipoles and their normalisation, for every
     flavour combination.""",
     ['inputs'], 'all coefficient values and parameters',
     'Tests compare a few numbers.', [MAS, MAI], [
         ('matching conditions', MAS + ': match_all_array and helpers')],
     """First-order jets, unit CKM matrix (C21 has the general one), exact
     Pythagorean mixing angles, abstract v, overall coupling and m_Z.""")

prop('C21', 'Matching expresses down-type quarks in their mass basis',
     """In the result of the matching every index of a left-handed down-type
     quark, and no other, is rotated by the CKM matrix (conjugated for the
     barred field), for every operator class including dipoles and
     baryon-number-violating operators and from both aligned SMEFT bases.""",
     ['inputs'], 'all coefficient values; CKM matrices',
     'Tests use a nearly diagonal CKM and compare few entries.', [MAS],
     [('rotation', MAS + ': rotate_down')],
     """First-order jets at exact unitary matrices over Q(i) without vanishing
     entries (one quick, three thorough).""")

prop('C22', 'Passing to fewer flavours keeps exactly the surviving operators',
     """Matching between the theories with different numbers of flavours hands
     on, with unchanged value, every coefficient whose name is defined in any
     sector of the target basis and drops all others.""",
     ['inputs', 'configurations'], 'all coefficient values and all '
     'definitions of the target basis',
     'Tests use one input per route.', [MAI], [('restriction', MAI)],
     """Abstract values, all overlap shapes between source and target.""")

prop('C23', 'EOS output is SM plus new physics for every parameter',
     """For every EOS parameter of the relevant parameter files, the written
     central, minimum and maximum values all equal the Standard Model central
     value plus the real or imaginary part (as its name says) of the
     corresponding coefficient, zero if absent. Charged-current parameters for
     a generic lepton take the common electron and muon coefficient, and files
     in which these differ are rejected.""",
     ['inputs'], 'all coefficient files, all parameter directories',
     'The test only counts parameters.', [EOS, CLI],
     [('new physics part', EOS + ': get_eos_np'),
      ('sum', EOS + ': wcxf2eos'), ('SM files', EOS + ': get_sm_wcs'),
      ('command', CLI + ': eos')],
     """Abstract coefficients partitioned on equality of the lepton flavours.""")

prop('C24', 'Each SMEFTsim card entry carries the named coefficient',
     """In the parameter card for either model set and input scheme, every row
     labelled with a coefficient stands at the block and index of that
     parameter in the SMEFTsim model and has, to seven digits, the value of
     that coefficient of the coefficient file: times the square of the cutoff
     scale for real ones, sign included, and modulus times that square and
     phase for the rows of complex ones; each coefficient has its rows exactly
     once.""",
     ['inputs', 'configurations'], 'all coefficient values, cutoff scales, '
     'model sets and input schemes',
     'The test only runs the conversion.', [SIM],
     [('rows', SIM + ': smeftsim_card_fill')],
     """Rows are read off the abstract card; the label is parsed into operator,
     part and flavour and related to the coefficient by the symmetries of the
     operator.""")

prop('C25', 'SMEFTsim cards can be produced from any subset of coefficients',
     """The conversion to a parameter card succeeds for every coefficient file,
     including an empty one, and rows of coefficients that are not in the file
     have the value zero; it does not change the coefficient file.""",
     ['inputs'], 'all subsets of the coefficients',
     'The test uses one complete file.', [SIM],
     [('defaults', SIM + ': smeftsim_card_fill')],
     """Empty, single-coefficient and complementary subsets that separate every
     pair of coefficients.""")

prop('C26', 'SMEFTsim cards follow the chosen model set and input scheme',
     """The written card starts and ends with the parameters of the requested
     model set, states the requested input scheme with its set of electroweak
     inputs, and contains the rows of that model set; the command uses the
     requested cutoff scale (default 1 TeV), scheme, set and output file and
     does not write a card for input in another basis unless the user
     insists, nor for an invalid file.""",
     ['inputs', 'configurations'], 'all option combinations',
     'The test runs the default.', [SIM, CARD, CLI],
     [('text', SIM + ': smeftsim_card_text'), ('command', CLI + ': smeftsim')],
     """All option combinations enumerated; values abstract.""")

prop('C27', 'Running couplings and masses use the right thresholds and loops',
     """The strong coupling and the bottom, charm and strange masses at any
     scale and number of flavours are obtained from the given input value at
     its own scale by three-loop running with the caller's strong coupling,
     crossing each quark threshold between the two theories exactly once and in
     order; at the input's own scale and flavour number the input is returned,
     and unsupported flavour numbers or non-positive scales are rejected.""",
     ['inputs'], 'all scales, input values and flavour numbers',
     'Tests compare a few numbers with tolerance.', [QCD],
     [('running', QCD + ': alpha_s, m_b, m_c, m_s')],
     """The numerical library is uninterpreted: the dataflow into its calls
     (arguments, threshold settings at the time of the call) is decided; the
     numbers it returns are not.""")

prop('C28', 'Importing the package registers every shipped definition',
     """After import every EFT and basis definition file shipped with the
     package, bases and the child bases in their own directory alike, is
     registered with exactly the content of the file (child bases together with
     what they inherit), independent of the order in which the directory is
     listed and of the working directory; no file is left out.""",
     ['configurations'], 'all sets of definition files and directory listing '
     'orders', 'Tests see one directory and one listing order.',
     ['wcxf/__init__.py'], [('loading', 'wcxf/__init__.py')],
     """Model directories with every listing order.""")

prop('C29', 'The LaTeX check leaves no files behind',
     """However the validation of the TeX code of a basis ends - success,
     failure, missing LaTeX program, missing log file - the temporary directory
     created for it is removed and nothing else is created, changed or
     removed.""",
     ['fault_sequences'], 'all outcomes of the LaTeX run, all contents of its '
     'log', 'Tests do not look at the temporary directory.', [CLS],
     [('clean-up', CLS + ': _testtex')],
     """Typestate of the temporary directory over all outcomes.""")

prop('C30', 'JMS to EOS and FormFlavor match the operator definitions',
     """The translations from JMS to the EOS and FormFlavor bases give for every
     input the coefficients that describe the same effective Lagrangian
     according to the operator definitions of the bases, with none lost or
     added.""",
     ['inputs'], 'all coefficient values, parameters and scales',
     'Tests only count or compare single entries.', [TRW],
     [('translations', TRW + ': JMS_to_EOS, JMS_to_FormFlavor')],
     """Every output form compared with an independent derivation. """ + GEN)

prop('C31', 'Printed tables list every coefficient with its value and type',
     """The printed representation of a coefficient file states EFT, basis and
     scale and has one row per coefficient with its name and numerical value;
     that of a basis has one section per sector and one row per coefficient with
     its name, TeX code and whether it is real or complex. It is available for
     every valid object, also with empty entries and sectors.""",
     ['inputs'], 'all objects', 'Tests print one or two objects.', [CLS],
     [('tables', CLS + ': WC.__str__, Basis.__str__')],
     """Rows parsed back from the abstract text.""")

prop('C32', 'Flavour rotations act on every index with its field\'s matrix',
     """The general flavour rotation of SMEFT coefficients contracts every
     flavour index of every operator with the matrix given for the field it
     belongs to (quark doublet, up, down, lepton doublet, charged lepton),
     complex conjugated for barred fields; operators without flavour indices
     are handed on, absent operators stay absent, and neither the coefficients
     nor the matrices passed in are changed.""",
     ['inputs'], 'all matrices and all coefficient tensors, all operators',
     'Tests only rotate with the CKM matrix.', [UTIL],
     [('rotation', UTIL + ': flavor_rotation')],
     """Matrices and tensors of independent complex atoms; every component
     compared with the contraction prescribed by the field content.""")

prop('C33', 'Default parameters agree with the measured values',
     """Every Standard Model parameter used by the routes has a default that is
     a real number, in the units and conventions of the routes (GeV, radians,
     MS-bar masses), within the experimentally allowed range; the Z mass and
     the default strong coupling used for the running of couplings and masses
     are the default parameters.""",
     ['configurations'], 'all parameters',
     'Tests use the defaults without looking at them.',
     ['wcxf/parameters.py', QCD], [('defaults', 'wcxf/parameters.py'),
                                   ('running', QCD + ': MZ, alpha_s')],
     """Abstract evaluation of the table, ranges and relations.""")

prop('C34', 'Loading gives exactly the described object or fails cleanly',
     """Loading an EFT, basis or coefficient file from JSON or YAML, given as
     string or stream, gives an object with exactly the entries of the
     document, registered under its name and no other (coefficient files are
     not registered). A document that is not a single mapping, lacks a required
     entry, has a scale that is not a number or names an unknown parent is
     rejected with an exception, and the registered EFTs and bases stay as they
     were.""",
     ['inputs', 'fault_sequences'], 'all documents', 'Tests load a few valid '
     'files.', [CLS], [('loading', CLS + ': WCxf.load, _load_yaml_json, '
                        'constructors')],
     """Documents of all shapes with abstract values.""")

prop('N01', 'Results are accurate to floating-point precision',
     """Every translation, matching and round trip is accurate to a few units
     in the last place of double precision for all inputs, without overflow or
     harmful cancellation.""",
     ['inputs'], 'all floating-point inputs',
     'Tests compare to fixed decimal places.', [TRW, MAS, UTIL],
     [('floating-point evaluation', TRW + ', ' + MAS)], '',
     na='Quantifies over rounding errors of numpy/einsum evaluation and of '
        'the singular value decomposition; no static bound in reach. The '
        'checks decide the exact real-number semantics instead (C13-C21).')
prop('N02', 'Running couplings agree with the literature',
     """The numerical values of the running coupling and masses agree with the
     known three-loop results within their theoretical uncertainty.""",
     ['inputs'], 'all scales', 'Tests compare a few numbers.', [QCD],
     [('running', QCD)], '',
     na='The numbers are computed by the compiled third-party rundec library; '
        'only the use made of it is in this source (C27).')
