prop('C09', 'EOS export combines Standard Model and new-physics values correctly',
     'For every Standard Model parameter table and coefficient set, the exported value of every parameter is the Standard Model value plus the matching coefficient, real and imaginary parts kept apart. '
     'Charged-current and lepton-universal names follow the EOS conventions, parameters without a coefficient keep the Standard Model value, and disagreement between lepton flavours that EOS cannot express is an error. Inputs are not modified.',
     ['inputs'], 'all parameter tables and coefficient sets, lepton-universal or not',
     'Tests convert one file.',
     ['wilson/wcxf/converters/eos.py'],
     [('reading of EOS parameters and combination', 'wilson/wcxf/converters/eos.py')], ['exported parameter dictionaries', 'written YAML'],
     'runtime monitoring: name and number model over observed exports',
     'Random tables with all name forms; parameter directories are generated in scratch folders.')
prop('C10', 'Array and dictionary views of coefficients are lossless and aligned',
     'Converting between individually named coefficients and flavour arrays, and between arrays and flat vectors, loses nothing and misplaces nothing: entry name_ijkl is array element [i-1,j-1,k-1,l-1] of the named coefficient for the basis in question (including the theories with two up or no top quark), '
     'padding and reduction only add or drop entries of absent fields, flat vectors have the documented order, and missing coefficients are zeros of the right shape. Inputs are unchanged.',
     ['inputs'], 'all coefficients, index combinations, bases and coefficient subsets',
     'Tests check the shape of a few arrays.',
     ['wilson/util/common.py', 'wilson/util/__init__.py', 'wilson/util/wet_jms.py'],
     [('EFTutil array handling', 'wilson/util/common.py:EFTutil')], ['arrays, dictionaries and vectors returned'],
     'runtime monitoring: index-model oracle over every observed entry',
     'Runs on the SMEFT, WET, WET-4 and randomly generated synthetic bases; entries carry unique values so that any permutation shows.')
prop('C11', 'Redundant and non-redundant coefficients describe the same operator',
     'For every coefficient class, filling in the redundant entries by symmetry, dropping them, symmetrising and rescaling agree with the operator symmetries: each redundant entry equals its symmetry image, a round trip returns the same numbers, operators sum to the same Lagrangian in both conventions, and coefficients that hermiticity forces to be real are real.',
     ['inputs'], 'all coefficients of all symmetry classes and all values',
     'Tests check hermiticity of single matrices; the symmetry relations must hold for each of thousands of entries.',
     ['wilson/util/common.py', 'wilson/util/__init__.py', 'wilson/util/wet_jms.py'],
     [('symmetrisation and its inverse, scaling', 'wilson/util/common.py:EFTutil')], ['arrays before and after each conversion'],
     'runtime monitoring: symmetry-orbit and Lagrangian-sum oracles',
     'Orbit model generated from the permutation/conjugation generators of each class, independent of the code.')
prop('C12', 'Flavour rotations of SMEFT coefficients follow the field content',
     'Rotating all Wilson coefficients by unitary matrices for the five fermion fields transforms each index with the matrix of its field, conjugated for outgoing fields, and leaves coefficients without flavour alone. Rotations compose, undo each other, keep operator symmetries and all flavour invariants, and keep the inputs unchanged. '
     'Changing to a mass basis makes the corresponding mass matrices diagonal and positive.',
     ['inputs'], 'all coefficient sets and unitary matrices',
     'Tests rotate with fixed matrices and check some entries.',
     ['wilson/util/smeft_warsaw.py', 'wilson/util/common.py', 'wilson/run/smeft/classes.py'],
     [('flavor_rotation', 'wilson/util/smeft_warsaw.py:flavor_rotation')], ['rotated arrays'],
     'runtime monitoring: field-content model and group-law oracles',
     'Rotation built from operator field content and applied with einsum, compared for every tensor.')
prop('C13', 'SMEFT beta functions respect flavour covariance, symmetry and the SM limit',
     'For every parameter point the beta functions transform like the coefficients under flavour rotations, obey the operator symmetries, are linear in the dimension-six coefficients apart from the SM parameters, reduce to the published Standard Model beta functions without new physics, and are the same in vector and dictionary form, independent of earlier calls. '
     'At fixed reference points they reproduce the established values.',
     ['inputs', 'histories'], 'all parameter points and coefficient sets',
     'Tests compare one parameter point with a reference output.',
     ['wilson/run/smeft/beta.py'],
     [('beta functions', 'wilson/run/smeft/beta.py:beta')], ['returned beta functions'],
     'runtime monitoring: covariance, linearity and limit oracles plus recorded values',
     'Covariance under random U(3)^5 rotations tests the index contraction of nearly every term; rational prefactors are tied to recorded values of the pinned tree and the published reference point. Two genuine deviations are known findings (their values are pinned by the existing tests).')
prop('C14', 'SMEFT evolution solves its renormalisation group equations',
     'For every input and pair of scales, the evolved coefficients and parameters solve the beta functions. Evolution to the same scale changes nothing, evolution in steps agrees with one step, running back returns the input, and the leading-logarithmic solution is the first-order expansion. '
     'Physics does not depend on the weak flavour basis, the interpolated continuous solution agrees with direct evolution inside its range, and invalid inputs are refused.',
     ['inputs'], 'all coefficient sets, scales, bases and accuracy settings',
     'Tests run from one scale to another with one set of inputs.',
     ['wilson/run/smeft/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/smeft/beta.py'],
     [('SMEFT runner and integrators', 'wilson/run/smeft/classes.py:SMEFT')], ['coefficients returned by run and run_continuous'],
     'runtime monitoring: independent integration and evolution-law oracles',
     'A separate Runge-Kutta integration of the same beta functions is the reference; tolerances follow the requested accuracy.')
prop('C15', 'Standard Model parameters are extracted consistently with dimension six',
     'For every set of Wilson coefficients and physical inputs, the extracted Lagrangian parameters (gauge and Yukawa couplings, Higgs potential, vacuum value, mixing angles) give back exactly those inputs through the tree-level relations including dimension-six shifts, in every weak basis. '
     'Unphysical inputs raise an error, inputs are unchanged, and without new physics the textbook relations hold.',
     ['inputs'], 'all Wilson coefficients and inputs in the physical region, at all scales',
     'Tests check the Standard Model point and one coefficient.',
     ['wilson/run/smeft/smpar.py', 'wilson/run/smeft/classes.py', 'wilson/parameters.py'],
     [('parameter extraction', 'wilson/run/smeft/smpar.py')], ['extracted parameters'],
     'runtime monitoring: inverse-relation oracles over observed extractions',
     'Relations are recomputed from the Lagrangian independently of the code; one defect (wrong exception) was repaired.')
prop('C16', 'Running below the electroweak scale solves its RGE in every sector',
     'For every input set, scale pair, parameter choice and coupling order, the evolved coefficients equal the leading-logarithmic QCD solution plus first-order QED correction of the anomalous dimensions in the theory with that number of flavours. Evolution is linear, keeps sectors apart, respects CP and parity, is the identity at equal scales, composes and reverses for QCD, and yields valid coefficients only. '
     'Selected sectors and the continuous solution agree with the full result; nothing depends on earlier runs and the input is unchanged.',
     ['inputs', 'histories', 'configurations'], 'all coefficients, scales, parameters, sector selections, coupling orders, and run histories',
     'Tests evolve single coefficients and compare a few numbers.',
     ['wilson/run/wet/classes.py', 'wilson/run/wet/rge.py', 'wilson/run/wet/adm.py', 'wilson/run/wet/definitions.py'],
     [('WETrunner', 'wilson/run/wet/classes.py:WETrunner'), ('evolution matrices', 'wilson/run/wet/rge.py:run_sector')],
     ['coefficients returned by run and run_continuous'],
     'runtime monitoring: matrix-exponential reference and evolution-law oracles',
     'The reference uses block matrix exponentials instead of eigenvectors; parity and CP are exact laws of the anomalous dimensions. One numerical defect found was repaired.')
prop('C17', 'Weak-scale anomalous dimensions are flavour universal and established',
     'QCD and QED do not distinguish generations: exchanging fermion generations of equal charge in the coefficients and masses exchanges the evolved coefficients in the same way, for every sector of every low-energy theory. Mass-dependent mixing is proportional to the masses involved, every basis coefficient belongs to exactly one sector, '
     'the observed scaling exponents are the published ones for scalar, tensor, vector, dipole and four-quark operators, and evolution maps equal the established values.',
     ['inputs'], 'all sectors, coefficients, relabellings of generations and masses',
     'Tests evolve a few coefficients in a few sectors.',
     ['wilson/run/wet/adm.py', 'wilson/run/wet/definitions.py', 'wilson/run/wet/rge.py'],
     [('anomalous dimension matrices', 'wilson/run/wet/adm.py'), ('sector definitions', 'wilson/run/wet/definitions.py')],
     ['evolved coefficients'],
     'runtime monitoring: generation-relabelling oracle, published exponents, recorded values',
     'Relabelling connects most entries of the matrices to each other; the absolute values rest on published exponents and on values recorded on the pinned tree.')
prop('C18', 'SMEFT to WET matching equals integrating out the heavy bosons',
     'For every set of SMEFT coefficients and parameters, the low-energy coefficients are those obtained by expanding the couplings of the W, Z and Higgs bosons to first order in dimension six and eliminating them at tree level, with rotations to mass bases. '
     'Matching is linear and additive in the coefficients, accepts every supported pair of bases, respects CP and the exchange of equal-mass generations including loop contributions, gives valid low-energy coefficients only, leaves inputs unchanged and does not depend on earlier calls.',
     ['inputs', 'configurations'], 'all SMEFT coefficients, parameters, supported bases and matching orders',
     'Tests match single coefficients and compare a few entries.',
     ['wilson/match/smeft_tree.py', 'wilson/match/smeft_loop.py', 'wilson/match/smeft.py'],
     [('tree-level matching', 'wilson/match/smeft_tree.py'), ('matching interface', 'wilson/match/smeft.py')],
     ['matched low-energy coefficients'],
     'runtime monitoring: independent numerical elimination of W and Z as oracle, symmetries, recorded values',
     'The reference builds all boson couplings numerically from the Lagrangian and shares no formula with the code. Loop terms are held to CP, generation exchange, linearity and recorded values.')

prop('C19', 'SMEFT basis translations are the field redefinitions they stand for',
     'For every set of SMEFT coefficients and CKM or electroweak parameters, translation between the Warsaw, up-aligned, mass and Higgs-Warsaw bases is the corresponding flavour rotation or linear field redefinition, leaves rephasing invariants and physical combinations unchanged, uses the parameters given, '
     'and going there and back returns the input. The outputs are valid coefficient sets with real coefficients real; inputs are unchanged and nothing depends on earlier calls.',
     ['inputs', 'configurations'], 'all SMEFT coefficients, all supported pairs of bases, all CKM and electroweak parameters',
     'Tests translate single coefficients with the default CKM matrix.',
     ['wilson/translate/smeft.py', 'wilson/translate/smeft_higgs.py', 'wilson/util/smeft_warsaw.py'],
     [('basis translators', 'wilson/translate/smeft.py')], ['translated coefficients'],
     'runtime monitoring: rotation and inverse oracles over observed translations',
     'Rotations are built from the field content; the Higgs basis relations from an independent expansion of the electroweak Lagrangian.')
prop('C20', 'Low-energy basis translation preserves the Lagrangian',
     'For every set of coefficients of every low-energy theory and every parameter choice, translating between the JMS, flavio and Bern bases gives the same effective Lagrangian, operator by operator, including all normalisation factors, Fierz identities, CKM elements, masses and hermitian conjugates. Translation is linear, goes back and forth without loss where both bases express an operator, '
     'restricts itself to the requested sectors without changing them, and leaves its inputs unchanged.',
     ['inputs', 'configurations'], 'all coefficients, parameters, sector selections, low-energy theories and pairs of bases',
     'Tests compare single coefficients and one roundtrip with fixed parameters.',
     ['wilson/translate/wet.py'],
     [('translators between JMS, flavio and Bern', 'wilson/translate/wet.py')], ['translated coefficients'],
     'runtime monitoring: independent Lagrangian expansion of both coefficient sets as oracle',
     'Both sides are expanded into elementary operators in an own implementation (colour and spinor Fierz done numerically) and compared. Normalisation of conventions follows the published basis definitions.')
prop('C21', 'Exports to EOS, FormFlavor and FlavorKit preserve the Lagrangian',
     'For every set of coefficients and parameters, the coefficients given to EOS, FormFlavor and FlavorKit (and read from FlavorKit) describe the same effective Lagrangian in the conventions of those programs, including signs, factors of i, masses, couplings, CKM elements and hermitian conjugation. '
     'Flavio and Bern coefficients can be exported through the common basis; sector selections and parameters are respected; inputs are unchanged.',
     ['inputs', 'configurations'], 'all coefficients, parameters, sectors, and target programs',
     'Tests compare a handful of numbers from reference files.',
     ['wilson/translate/wet.py', 'wilson/translate/__init__.py'],
     [('one-way translators', 'wilson/translate/wet.py')], ['translated coefficients'],
     'runtime monitoring: independent Lagrangian expansion in the conventions of the target program, recorded values',
     'Five defects were found by this oracle and repaired.')
prop('C22', 'Quark threshold matching keeps light operators and drops heavy ones',
     'At the bottom, charm (and lower) thresholds every coefficient whose operator contains only light fields is carried over exactly, every operator with a heavy field is dropped, in every supported basis, independent of parameters. Matching commutes with basis translation, '
     'produces valid coefficient sets at the same scale, and refuses unsupported pairs of theories and bases.',
     ['inputs', 'configurations'], 'all coefficients of each low-energy theory, bases, scales and parameters',
     'Tests match one coefficient.',
     ['wilson/match/__init__.py', 'wilson/wcxf/classes.py'],
     [('threshold matchers', 'wilson/match/__init__.py')], ['matched coefficients'],
     'runtime monitoring: field-content oracle over observed matchings',
     'The set of light operators is derived from the field content of the operators, not from the lists in the code. Exact (bitwise) comparison.')
prop('C23', 'Automatic running and matching equals the sequence of its pieces',
     'For every input theory, basis and scale and every output, the automatic interface returns what translating, running, matching at the configured scales with the configured orders and parameters, and translating back give step by step. It does so whatever was requested before from the same object, with any sector selection, and after any change of options. '
     'Returned objects are valid, carry the requested theory, basis and scale, inputs are unchanged, every documented option and parameter has its effect, and impossible requests are errors.',
     ['inputs', 'histories', 'configurations'], 'all inputs, outputs, options, parameters, sector selections and request histories',
     'Tests run a few chains once on fresh objects.',
     ['wilson/classes.py'],
     [('match_run with caching', 'wilson/classes.py:Wilson.match_run')], ['returned coefficients'],
     'runtime monitoring: step-by-step reference over random request histories',
     'Histories interleave requests, option changes and parameter changes, so stale caches are seen. One deviation (parameters do not reach SMEFT running) is a known finding, four others were repaired.')
prop('C24', 'Wilson objects keep their coefficients, options and identity',
     'An object built from a dictionary, coefficient set, text or file holds exactly the given coefficients, theory, basis and scale, and refuses unknown ones. Options are per object: setting one affects only that object, class defaults affect only later objects, invalid values are refused without effect, and the caller\'s dictionaries are neither modified nor shared. '
     'Parameters are the published default values overridden by the user\'s. The hash changes exactly when coefficients or options change.',
     ['inputs', 'histories', 'configurations'], 'all coefficients, option values and histories of operations on several objects',
     'Tests set a few options once.',
     ['wilson/classes.py', 'wilson/parameters.py'],
     [('ConfigurableClass and Wilson', 'wilson/classes.py:ConfigurableClass')], ['options, parameters, hash, coefficients after every operation'],
     'runtime monitoring: dictionary-model oracle over random histories',
     'Every observable is compared with the model after every operation. Two defects were repaired.')
prop('C25', 'Continuous solutions sample the running at every requested scale',
     'The data for plotting a running coefficient or parameter lie on the requested logarithmic or linear grid between both scales and equal, as real or imaginary part, the direct evolution to each of these scales, for every input, generated or vanishing coefficient and every Standard Model parameter, in SMEFT and the low-energy theories. '
     'Scalar and vector requests agree; unknown names and equal scales are errors; plotting passes these data on unchanged.',
     ['inputs'], 'all coefficients, scales, numbers of steps, grids and parts',
     'Tests check the shape of one result.',
     ['wilson/classes.py', 'wilson/run/smeft/rge.py', 'wilson/run/wet/classes.py'],
     [('RGsolution', 'wilson/classes.py:RGsolution'), ('interpolated evolution', 'wilson/run/smeft/rge.py:smeft_evolve_continuous')],
     ['arrays handed to the plotting library'],
     'runtime monitoring: pointwise oracle over sampled solutions',
     'A recording stand-in replaces the plotting library. Two defects were repaired.')
prop('C26', 'DsixTools files and exchange-format coefficients carry the same content',
     'For every set of SMEFT coefficients and new-physics scale, conversion to DsixTools form multiplies each coefficient by the power of the scale given by its dimension, fills redundant entries by the operator symmetries and everything else with zero; files contain each independent non-zero entry exactly once. '
     'Reading such files, in any layout and split over any number of files, gives back the coefficients and Standard Model couplings. Other bases are refused.',
     ['inputs'], 'all coefficients, scales, formats, layouts and both directions, library and command line',
     'Tests convert one reference file.',
     ['wilson/wcxf/converters/dsixtools.py', 'wilson/wcxf/converters/dsixtools_definitions.py', 'wilson/wcxf/cli.py'],
     [('SMEFTio', 'wilson/wcxf/converters/dsixtools.py:SMEFTio')], ['files and arrays written'],
     'runtime monitoring: content oracle with own reader and writer of the file format',
     'Random coefficient sets up to all coefficients; the entries expected in a file are derived from the exchange basis. One defect was repaired.')
prop('C27', 'SMEFTsim cards assign every coefficient to its model parameter',
     'For every set of coefficients in the mass basis, cut-off, model set and input scheme, the parameter card assigns to each parameter of the model the modulus, phase or signed real value of exactly the coefficient it is named after, times the square of the cut-off and divided by the symmetry factor; nothing is missing, doubled or not a number. '
     'Standard Model entries follow the input scheme; coefficients in other bases are converted only after confirmation.',
     ['inputs', 'configurations'], 'all coefficients, cut-offs, both model sets and input schemes, library and command line',
     'Tests check two numbers of one card.',
     ['wilson/wcxf/converters/smeftsim.py', 'wilson/wcxf/converters/SMEFTsim_param_card_elements.py', 'wilson/wcxf/cli.py'],
     [('card filling', 'wilson/wcxf/converters/smeftsim.py:smeftsim_card_fill')], ['entries of the card'],
     'runtime monitoring: label-driven value oracle over written cards, recorded numbering',
     'All 5000 entries of both model sets are judged in every case. Three defects (lost signs, complex numbers) were repaired.')

prop('C28', 'Views of coefficients and bases list exactly their content',
     'The text, markdown, HTML and data-frame view of every coefficient set and of every basis definition lists each coefficient exactly once, in its sector, with its value (or with its operator and whether it is real), and the theory, basis and scale it belongs to; '
     'views of bases include inherited sectors. Showing an object, in any order of views, does not change it.',
     ['inputs', 'histories'], 'all coefficient sets, basis definitions and orders of views',
     'Tests only call the views without looking at the result.',
     ['wilson/wcxf/classes.py', 'wilson/classes.py'],
     [('markdown, HTML and DataFrame views', 'wilson/wcxf/classes.py:WC._repr_markdown_')], ['returned text and frames'],
     'runtime monitoring: own table parser over observed views against the content',
     'Random objects and all shipped bases; HTML values are compared to the displayed precision.')
prop('C29', 'Results depend on the request alone, not on process, order or threads',
     'Translating, matching and running the same input gives the same numbers in any process (whatever the hash seed), in any order of requests, while other threads compute something else, and when several threads ask the same object. '
     'The state of the process that belongs to the caller (random generator, numerical error handling, warning filters, environment, directory) is left alone.',
     ['schedules', 'histories', 'configurations'], 'all sets and orders of requests, hash seeds, numbers of threads and interleavings',
     'Tests run each request once in one process and thread.',
     ['wilson/classes.py', 'wilson/run/wet/rge.py', 'wilson/util/qcd.py', 'wilson/util/wetutil.py', 'wilson/translate/wet.py', 'wilson/match/smeft.py'],
     [('memoised functions and per-object result cache', 'wilson/classes.py:Wilson._cache')], ['results of each request'],
     'runtime monitoring: differential oracle across processes, hash seeds, orders and rapid thread switching',
     'Interleavings come from a 10 microsecond switch interval, not from enumeration.')
prop('C30', 'A failed request leaves objects, options and registries as they were',
     'When a request, option change, definition or conversion is interrupted or fails at any point inside the library, coefficient values, options, defaults and registered definitions are those from before (a definition or option change may also be complete), '
     'and the next request on the same or any other object gives what a fresh object gives.',
     ['crash_points', 'histories'], 'all operations and all places at which an exception can be raised in the library code',
     'Tests never fail part-way.',
     ['wilson/classes.py', 'wilson/wcxf/classes.py', 'wilson/run/wet/rge.py', 'wilson/translate/wet.py'],
     [('result cache, options, registries', 'wilson/classes.py:Wilson.match_run')], ['objects and registries after an injected exception'],
     'runtime monitoring: exceptions injected at random internal calls, differential oracle afterwards',
     'Faults are raised by a profiling hook on entry of the n-th call of a library function, n random; several hundred places per run.')
