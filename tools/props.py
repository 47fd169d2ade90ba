"""The property list; writes properties.jsonl and MANIFEST.json (python3 tools/props.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note, claimed=claimed, reason=reason))


prop('C01', 'Strong coupling solves its renormalisation group equation',
     'For every scale, number of flavours, loop order and input value of the strong coupling at the Z mass, the returned coupling '
     'satisfies the beta function of that loop order in the theory with that number of flavours, reproduces the input value at the Z mass '
     'and is matched across the quark thresholds by the decoupling relations of the stated loop order. Asking twice, in any order or '
     'after other requests, gives the same number.',
     ['inputs', 'histories'], 'all scales 0.9 GeV..10 TeV, 3-6 flavours, 1-4 loops, coupling values 0.10..0.13, any order of requests',
     'Unit tests compare a handful of points with table values; the RGE, threshold matching and independence of the request history must hold on a continuum.',
     ['wilson/util/qcd.py', 'wilson/parameters.py'],
     [('alpha_s with memoisation on top of the rundec library', 'wilson/util/qcd.py:alpha_s')],
     ['return value of alpha_s'],
     'runtime monitoring: reference ODE oracle over observed calls',
     'Explores random and boundary inputs; oracle is an independent integration of the published beta function and decoupling constants. The third-party running library is executed, not trusted.')
prop('C02', 'Quark masses run with the QCD anomalous dimension and hit their inputs',
     'For every flavour (bottom, charm, strange; up and down analogously), scale, number of flavours, loop order and input mass, the running mass '
     'equals the input at its defining scale and runs with the mass anomalous dimension, consistently with the strong coupling of the same theory. '
     'Between theories with different numbers of flavours the masses are matched by the decoupling relations at the quark thresholds, unreasonable requests are refused, and results never depend on earlier requests.',
     ['inputs', 'histories'], 'all mass inputs, scales, flavour numbers, loop orders and request orders in the perturbative range',
     'Tests check single values; the running law has to hold for every scale and flavour number.',
     ['wilson/util/qcd.py'],
     [('m_b, m_c, m_s and their threshold chains', 'wilson/util/qcd.py')], ['return values of the mass functions'],
     'runtime monitoring: reference ODE oracle over observed calls',
     'As C01; a genuine defect found (charm mass ignoring the flavour number at its own scale) was repaired.')
prop('C03', 'Serialising and reading back keeps all exchange-format content',
     'Any set of Wilson coefficients, EFT or basis definition written to JSON or YAML and read back (from text, bytes or file, in any mix of formats) '
     'has the same EFT, basis, scale, coefficient values, sectors and metadata. Writing does not change the object, and every output is legal JSON or YAML. '
     'Documents that lack required content are refused.',
     ['inputs'], 'all coefficient sets, definitions, metadata, names and numbers; both formats; all stream kinds',
     'Tests read a few sample files; names, numbers and metadata that YAML or JSON treat specially are never sampled.',
     ['wilson/wcxf/classes.py', 'wilson/wcxf/converters/yamljson.py'],
     [('load/dump of the WCxf classes', 'wilson/wcxf/classes.py')], ['written bytes', 'reloaded objects'],
     'runtime monitoring: round-trip and format oracles over generated documents',
     'Random plus hostile names, values and metadata; the independent json and yaml parsers judge the written bytes.')
prop('C04', 'Numeric views of a coefficient set are exact and stable',
     'For every coefficient set, the numeric value of each listed coefficient is exactly the stored real or complex number, every coefficient that is not listed is zero '
     'on item access and stays unlisted. The dictionary view, item access, the conversion from numbers to stored values and hashing agree with each other and do not depend on '
     'the order in which they are used.',
     ['inputs', 'histories'], 'all values (real, complex, partial complex), names, and access orders',
     'Tests look up a few entries of one file.',
     ['wilson/wcxf/classes.py'], [('value access of WC', 'wilson/wcxf/classes.py:WC')], ['item access, dict, values, hash'],
     'runtime monitoring: value-model oracle over access histories',
     'Exact (bitwise) comparison with an independent model of the file format over random access orders.')
prop('C05', 'Registries of EFTs, bases, translators and matchers behave like dictionaries',
     'After any history of defining, redefining, deleting and clearing, looking up an EFT, basis, translator or matcher by its key returns the most recently defined one, '
     'unknown keys are errors, and the listings of known bases and translators contain exactly the registered ones. '
     'The registries of different kinds never affect each other, and a refused definition leaves them as they were.',
     ['histories'], 'all histories of create, override, delete, clear, lookup on all four registries and on user-defined ones',
     'Tests define each object once.',
     ['wilson/wcxf/classes.py'], [('NamedInstanceClass registry', 'wilson/wcxf/classes.py:NamedInstanceClass')],
     ['registry contents after every operation'],
     'runtime monitoring: online model check of operation histories',
     'Random histories of 40 operations compared with a dictionary model after every step.')
prop('C06', 'Basis definitions inherit correctly and validation accepts exactly the valid',
     'A basis with a parent consists of its own sectors and those sectors of the parent that it does not define itself, its coefficient list contains each coefficient exactly once, '
     'and inheriting does not change the parent. Validation of a coefficient set accepts it exactly if all names belong to the basis; validation of a basis accepts it exactly if sectors and coefficient names are consistent, '
     'and leaves no files behind.',
     ['inputs', 'fault_sequences'], 'all inheritance trees, sector layouts and coefficient sets; LaTeX absent, failing or working',
     'Tests use three small hand-written bases and skip LaTeX faults.',
     ['wilson/wcxf/classes.py'], [('parent handling, all_wcs, validate', 'wilson/wcxf/classes.py:Basis')],
     ['sectors, all_wcs, ValueErrors, temporary directory contents'],
     'runtime monitoring: set-model oracle plus injected LaTeX faults',
     'Random trees compared with a set model; LaTeX is replaced by stand-ins that succeed, fail, write no log or are absent. Three defects found were repaired.')
prop('C07', 'Translation and matching dispatch to exactly the registered route',
     'A request to translate or match runs the function registered for exactly that route once, with the coefficient numbers, scale and parameters of the request, and labels the result with the requested EFT and basis at the unchanged scale. '
     'All nonzero numbers of the result are kept exactly, a request for the current basis returns the set itself, an unknown route is an error, and the input set and parameters are never modified. '
     'The direct routes of the package give what the registered routes they abbreviate give one after the other with the same parameters.',
     ['inputs', 'histories'], 'all routes, coefficient sets, parameters and sector restrictions',
     'Tests check a single translator; wrong routing or mutation shows only for other routes or on reuse.',
     ['wilson/wcxf/classes.py', 'wilson/translate/__init__.py', 'wilson/match/__init__.py'],
     [('WC.translate and WC.match', 'wilson/wcxf/classes.py:WC')], ['recorded calls of registered functions', 'returned sets'],
     'runtime monitoring: recorded-call trace checked against a dispatch model',
     'Every registered function records its call; trace and result are compared with the model.')
prop('C08', 'Command line gives the same result as the library',
     'For every input, converting, translating and validating on the command line produces the same coefficient sets as the corresponding library calls, in the requested format, to the requested file or standard output, '
     'and reports invalid or malformed input as invalid, with a non-zero exit status. EOS export writes one assignment per exported parameter with the combined value, and an invalid input leaves an earlier export alone.',
     ['inputs', 'configurations'], 'all subcommands, option combinations, file and pipe input and output, valid and invalid content',
     'Tests run three commands on two files.',
     ['wilson/wcxf/cli.py', 'wilson/wcxf/converters/yamljson.py', 'wilson/wcxf/converters/eos.py'],
     [('argument handling and output', 'wilson/wcxf/cli.py')], ['stdout, stderr, exit status, output files'],
     'runtime monitoring: differential oracle of observed process output against the API',
     'Runs the entry points in-process and as child processes inside scratch directories.')
exec(open(os.path.join(HERE, 'tools', 'props2.py')).read()) if os.path.exists(os.path.join(HERE, 'tools', 'props2.py')) else None

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                            'observe_at': p['observe'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash harness/setup.sh',
         'checks': [{'property': p['id'], 'quick_cmd': f'bash harness/run.sh {p["id"]} --tier quick',
                     'thorough_cmd': f'bash harness/run.sh {p["id"]} --tier thorough',
                     'evidence_file': f'evidence/{p["id"]}.json', 'technique': p['tech'], 'level': 'exploration',
                     'level_note': p['note']} for p in P if p['claimed']],
         'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in P if not p['claimed']],
         'notes': 'All checks import /repo/wilson of the working tree (harness/wload.py); no build step, no hooks in /repo. '
                  'See DESIGN.md; known_findings.txt lists findings and repairs.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
    print(len(P), 'properties')
