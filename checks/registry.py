"""What each property's check runs, and how its counters become evidence."""

KW = {'name': 'kw', 'srcs': ['checks/kw.cpp']}


def kw(part, thorough=None):
    return dict(KW, parts={'quick': part, 'thorough': thorough or part})


CHECKS = {
    'C01': dict(level='model_checking', stages=[kw(['scalar', 'many-scalar'])]),
    'C02': dict(level='model_checking', stages=[kw(['object', 'many-object'])]),
    'C03': dict(level='model_checking', stages=[kw(['array', 'many-array'])]),
    'C04': dict(level='model_checking', stages=[kw(['comb', 'many-comb'])]),
    'C08': dict(level='model_checking', stages=[kw(['scalar', 'object', 'array', 'comb', 'many-scalar', 'many-object', 'many-array', 'many-comb'])]),
}

for c in ('C01', 'C02', 'C03', 'C04', 'C08'):
    CHECKS[c].update(states='schemas', transitions='model_steps', traces='pairs',
                     rule='every schema of the bounded family against every instance of the family; distinct by schema text; non-trivial when '
                          'the model gives the schema both verdicts over the instances',
                     nontrivial='schemas_with_both_verdicts')

_FM = ['date', 'time', 'date-time', 'ipv4', 'color', 'Date', 'ipv6']
CHECKS['C05'] = dict(
    level='model_checking', stages=[{'name': 'format', 'srcs': ['checks/format.cpp'], 'flags': ['-O2'], 'parts': {'quick': _FM, 'thorough': _FM}}],
    states='strings', transitions='validations', traces='comparisons', nontrivial='accepted',
    rule='every string of the bounded grammar product of each format, all one-edit and selected two-edit neighbours of valid strings and all '
         'strings of up to three characters of the alphabet, in strict and permissive mode, with and without results; non-trivial when accepted')

_QT = ['-isystem', '/usr/include/x86_64-linux-gnu/qt6/QtCore', '-isystem', '/usr/include/x86_64-linux-gnu/qt6']
_ADS = ['boost_json', 'jsoncpp', 'nlohmann', 'picojson', 'poco', 'ptree', 'qtjson', 'qvariant', 'rapidjson', 'reg', 'yaml']


def adlibs(flags=()):
    return [['lib/ad/%s.cpp' % a, list(flags) + (['-DPICOJSON_USE_INT64'] if a == 'picojson' else [])] for a in _ADS]


ADLIBS = ['-ljsoncpp', '-lyaml-cpp', '-lPocoJSON', '-lPocoFoundation', '-lQt6Core']


def adapt(*parts, thorough=None):
    return {'name': 'adapt', 'srcs': ['checks/adapt.cpp'] + adlibs(), 'flags': ['-fPIC', '-I/usr/include/jsoncpp'] + _QT, 'libs': ADLIBS,
            'parts': {'quick': list(parts), 'thorough': list(thorough or parts)}}


CHECKS['C06'] = dict(level='model_checking', stages=[adapt('pairs', 'many', 'triples', 'schemas')], states='held_values', transitions='comparisons', traces='pairs',
                     nontrivial='equal_pairs', rule='every ordered pair of values of the alphabet under every ordered pair of adapters, live, reversed and frozen; every '
                     'triple for transitivity; every pair through const, enum and uniqueItems; non-trivial when the two values are equal')
CHECKS['C15'] = dict(level='model_checking', stages=[adapt('all', 'many')], states='schema_texts', transitions=['validations', 'weak_validations'], traces='validations',
                     nontrivial='reference_invalid', rule='every single-keyword schema and depth-one combinator under every schema adapter x document adapter pair over '
                     'every document; verdict and multiset of error pointers compared with the rapidjson run; non-trivial when the model rejects the document')
CHECKS['C16'] = dict(level='model_checking', stages=[adapt('all', 'many')], states='held_values', transitions='walks', traces='values_held', nontrivial='held_values',
                     rule='every value of the alphabet held by every library that can hold it, read back through every query of the adapter interface; '
                     'distinct by library and value, each non-trivial')
CHECKS['C17'] = dict(level='model_checking', stages=[adapt('views', 'numeric', 'weak')], states='held_values', transitions='view_checks', traces=['view_checks', 'validations'],
                     nontrivial='held_values', rule='every text over the lexical alphabet and every value, under every adapter and every maybe/as pair; every schema of the '
                     'alphabet validated weakly against every document under every adapter; distinct by library and value')

CHECKS['C23'] = dict(level='model_checking', stages=[{'name': 'contained', 'srcs': ['checks/contained.cpp'] + adlibs(), 'libs': ADLIBS,
                     'flags': ['-fPIC', '-fsanitize=address', '-I/usr/include/jsoncpp'] + _QT, 'parts': {'quick': ['all'], 'thorough': ['all']}}],
                     states='history_states', transitions='operations', traces='histories', nontrivial='history_states',
                     rule='every sequence of distinct operations (overwrite the source, destroy it, destroy the parser, reuse the parser) after populating each schema '
                     'of a set using every keyword, from every library, strict and weak; after each operation all documents are validated again; distinct by '
                     'schema, library, mode and sequence; every one changes or destroys a source')


def text(name, flags, quick, thorough=None):
    return {'name': name, 'srcs': ['checks/text.cpp'], 'flags': flags, 'libs': ['-lyaml-cpp'], 'parts': {'quick': quick, 'thorough': thorough or quick}}


_LOC = ['C', 'comma', 'odd', 'de', 'de-thread', 'de-global']
CHECKS['C07'] = dict(level='model_checking', stages=[text('text', ['-O2'], ['guard', 'verdict']), text('text-asan', ['-fsanitize=address'], ['verdict'])],
                     states='strings', transitions='length_computations', traces='strings', nontrivial='well_formed',
                     rule='every byte string up to the length bound over lead, continuation, ASCII, NUL and invalid bytes, at both ends of a guarded page; every sequence '
                     'of code points of all encoded lengths, and with malformed sequences inserted, through every relevant minLength/maxLength; non-trivial when well-formed UTF-8')
CHECKS['C13'] = dict(level='model_checking', stages=[text('text-asan', ['-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'], ['strings', 'refs'])],
                     states='pointers', transitions='resolutions', traces='resolutions', nontrivial='designating',
                     rule='every pointer string up to the length bound over the structural alphabet and every product of up to three tokens of a token list, against '
                     'every document; every such pointer as a $ref; non-trivial when it designates a value of the largest document')
CHECKS['C14'] = dict(level='model_checking', stages=[text('text', ['-O2'], ['grammar', 'fetch']), text('text-asan', ['-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'], ['raw'])],
                     states='uris', transitions='resolutions', traces='resolutions', nontrivial='fetch_runs',
                     rule='every base URI with an authority of the grammar against every reference of the grammar; the same through $ref and the fetch callback; every '
                     'pair of raw strings up to the length bound for termination; non-trivial: runs in which a schema resolves the reference itself')
CHECKS['C24'] = dict(level='model_checking', stages=[text('text', ['-O2'], _LOC), text('text-stream', ['-O2', '-DVALIJSON_HAS_STD_FROM_CHARS=0'], ['C', 'comma', 'de-global'])],
                     states='strings', transitions='readings', traces='readings', nontrivial='numbers',
                     rule='every string up to the length bound over digits, signs, points, exponents, space, letter and NUL, and a grammar product with extreme parts, under '
                     'every locale, with both implementations of text conversion; non-trivial when the text is a number')


def refs(name, flags, quick, thorough=None):
    return {'name': name, 'srcs': ['checks/refs.cpp'], 'flags': flags + ['-DVH_SLOT=4194304'], 'parts': {'quick': quick, 'thorough': thorough or quick}}


_SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS']
CHECKS['C10'] = dict(level='model_checking', stages=[refs('refs', ['-O2'], ['graph', 'ids', 'names', 'many'])], states='schemas', transitions=['model_steps', 'orders'], traces='verdicts',
                     nontrivial='schemas_with_both_verdicts', rule='every reference graph, placement of identifiers and reference text of the family, in every order of the members '
                     'of the root and its definitions, against every instance; distinct by construction; non-trivial when the model gives both verdicts')
CHECKS['C11'] = dict(level='fault_enumeration', stages=[refs('refs-asan', _SAN, ['graph', 'ids', 'many'])], states='graphs', transitions='runs', traces='verdicts', evaluations='runs',
                     nontrivial='fault_points', rule='every reference graph over the root and up to three remote documents, fault-free and with each fault at each callback '
                     'position; distinct by graph, position and fault')
CHECKS['C12'] = dict(level='model_checking', stages=[refs('refs-asan', _SAN, ['single', 'pairs', 'graphs', 'many'])], states='schemas', transitions='validations', traces='schemas',
                     nontrivial='rejected', rule='every keyword with every value shape in every draft, alone, under each applicator, in pairs; every reference graph of the '
                     'family; distinct by construction; non-trivial when the parser rejects it')


CHECKS['C09'] = dict(level='model_checking', stages=[kw(['scalar', 'object', 'array', 'comb', 'many-scalar', 'many-object', 'many-array', 'many-comb']), {'name': 'errors', 'srcs': ['checks/errors.cpp'], 'flags': ['-O2'],
                     'parts': {'quick': ['nested', 'queue'], 'thorough': ['nested', 'queue']}}], states=['schemas', 'histories'], transitions=['model_steps', 'operations'],
                     traces=['pairs', 'histories'], nontrivial=['schemas_with_both_verdicts', 'histories'],
                     rule='every schema of the keyword families and of nested placements with awkward names against every document, errors compared with the sites the model '
                     'finds failing; every sequence of operations on a results object; non-trivial: schemas with both verdicts, and all histories')


CHECKS['C21'] = dict(level='fault_enumeration', technique='exhaustive fault exploration of the real code: every allocation index of every run made to fail, against the fault-free outcome', stages=[
    {'name': 'oom', 'srcs': ['checks/oom.cpp'] + adlibs(), 'libs': ADLIBS, 'flags': ['-fPIC', '-fsanitize=address', '-I/usr/include/jsoncpp'] + _QT,
     'parts': {'quick': ['populate', 'validate'], 'thorough': ['populate', 'validate']}},
    {'name': 'oomcold', 'srcs': ['checks/oom.cpp', 'lib/ad/rapidjson.cpp', 'lib/ad/reg.cpp'], 'flags': [],
     'parts': {'quick': ['cold'], 'thorough': ['cold']}}], states='schemas', transitions='runs', traces='runs', evaluations='runs',
                     nontrivial='fault_points', rule='every allocation of populating and of validating made to fail, alone and with all later ones, for the global heap and for user-supplied '
                     'functions that return null or throw, over a schema set using every keyword; distinct by schema, library, document and index; non-trivial when the failure is reached')


CHECKS['C28'] = dict(level='model_checking', technique='explicit-state exploration: every sequence of building operations up to the depth bound, and every schema of the families assembled in every listed way, on the real classes against the reference model',
                     stages=[{'name': 'assembled', 'srcs': ['checks/assembled.cpp'], 'flags': ['-fsanitize=address'],
                     'parts': {'quick': ['ops', 'meta', 'asm-scalar', 'asm-object', 'asm-array', 'asm-comb', 'asm-many-scalar', 'asm-many-object', 'asm-many-array', 'asm-many-comb'], 'thorough': ['ops', 'meta', 'asm-scalar', 'asm-object', 'asm-array', 'asm-comb', 'asm-many-scalar', 'asm-many-object', 'asm-many-array', 'asm-many-comb']}}],
                     states=['sequences', 'schemas'], transitions=['operations', 'assemblies'], traces='pairs', evaluations=['sequences', 'assemblies'],
                     nontrivial=['sequences', 'schemas_with_both_verdicts'],
                     rule='every enabled sequence of 52 building operations up to the depth bound from three starting points; every schema of the bounded families assembled in 14 ways (all 128 for some); every combination of title, '
                     'description and identifier at four places; distinct by construction; non-trivial when the model gives both verdicts')


CHECKS['C20'] = dict(level='model_checking', technique='explicit-state exploration: every operation sequence up to the depth bound run on the real classes under an ownership ledger, against a model of the contents',
                     stages=[{'name': 'owner', 'srcs': ['checks/owner.cpp', 'lib/ad/rapidjson.cpp', 'lib/ad/boost_json.cpp', 'lib/ad/reg.cpp'], 'libs': [], 'flags': ['-fsanitize=address'],
                     'parts': {'quick': ['ops', 'moved'], 'thorough': ['ops', 'moved']}}], states='states', transitions='operations', traces='sequences', evaluations='sequences',
                     nontrivial='states', rule='every enabled sequence of 20 operations on two schema slots up to the depth bound, and every rich schema moved in 8 ways under three allocators; '
                     'distinct by the model state reached')


CHECKS['C22'] = dict(level='model_checking', technique='bounded exhaustive exploration of the real code with recording user functions: every placement, every assignment of engine answers, every throw position, against a model of the applications',
                     stages=[{'name': 'custom', 'srcs': ['checks/custom.cpp', 'lib/ad/rapidjson.cpp', 'lib/ad/boost_json.cpp', 'lib/ad/jsoncpp.cpp', 'lib/ad/reg.cpp'], 'libs': ['-ljsoncpp'], 'flags': ['-O1', '-I/usr/include/jsoncpp'],
                     'parts': {'quick': ['place', 'life', 'regex'], 'thorough': ['place', 'life', 'regex']}}], states='schemas', transitions=['calls', 'rx_runs'], traces=['runs', 'rx_runs'],
                     nontrivial=['runs_with_calls', 'faults', 'rx_runs'], rule='the user keyword in every slot of every combinator up to the nesting bound x instances x results mode; every position at which user code may throw; '
                     'every assignment of answers to the (pattern, string) pairs of a schema and document; distinct by case, non-trivial when user code is called')


_HIST = ['checks/history.cpp', 'lib/ad/rapidjson.cpp', 'lib/ad/boost_json.cpp', 'lib/ad/reg.cpp']
CHECKS['C18'] = dict(level='model_checking', technique='explicit-state exploration of histories: every bounded sequence of validations on shared objects run on the real code, the last outcome compared with that of a process of its own',
                     stages=[{'name': 'history', 'srcs': _HIST, 'flags': ['-O2'], 'parts': {'quick': ['two', 'long', 'tour'], 'thorough': ['two', 'long', 'tour']}},
                             {'name': 'historydbg', 'srcs': _HIST, 'flags': ['-O1', '-D_GLIBCXX_DEBUG', '-fsanitize=address'], 'parts': {'quick': ['tour'], 'thorough': ['tour']}}],
                     states='histories', transitions='steps', traces='sequences', nontrivial='sequences',
                     rule='every sequence of two steps of the full alphabet (schema, document, validator, results object, place) and of three (thorough: four) of a reduced one; histories of hundreds of patterns; '
                     'patterns first met inside other patterns; validations from inside validations; all distinct by construction')


_TSAN = ['-O1', '-fsanitize=thread', '-fno-inline', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fPIC', '-I/usr/include/jsoncpp'] + _QT
CHECKS['C19'] = dict(level='model_checking', technique='stateless model checking of the real code under a controlled scheduler: every interleaving of shared synchronisation operations up to a preemption bound with happens-before race detection, and preemption at every function entry',
                     stages=[{'name': 'threads', 'srcs': [['checks/threads.cpp', _TSAN], ['lib/sched/sched.cpp', ['-O2', '-fno-builtin', '-fno-tree-loop-distribute-patterns']]] + adlibs(_TSAN), 'libs': ADLIBS + ['-rdynamic', '-ldl'], 'flags': [],
                              'hang': 200, 'parts': {'quick': ['entries', 'sync', 'populate', 'libs'], 'thorough': ['entries', 'sync', 'populate', 'libs']}}],
                     states='schedules', transitions='transitions', traces='schedules', nontrivial='cases',
                     rule='a case is a schema and one document per thread; schedules are plans of the controlled scheduler, each run in a process of its own from cold start; all distinct by construction')


_LOADS = [['lib/load/%s.cpp' % a, ['-DPICOJSON_USE_INT64'] if a == 'picojson' else []] for a in _ADS]


def loadstage(name, flags, quick, thorough):
    return {'name': name, 'srcs': ['checks/load.cpp'] + _LOADS, 'libs': ADLIBS + ['-ldl'], 'flags': flags + ['-fPIC', '-I/usr/include/jsoncpp'] + _QT, 'parts': {'quick': quick, 'thorough': thorough}}


CHECKS['C25'] = dict(level='model_checking', technique='explicit-state exploration of files and read faults: every text of a bounded family, every truncation and single-byte damage, and every read failure, on the real loaders',
                     stages=[loadstage('load', ['-O1'], ['tokens', 'faults', 'sizes', 'special', 'leaks'], ['tokens', 'damage', 'faults', 'sizes', 'special', 'leaks']),
                             loadstage('loadasan', ['-O1', '-fsanitize=address'], ['damage'], ['damage', 'special', 'faults'])],
                     states='texts', transitions='loads', traces='loads', nontrivial='texts',
                     rule='every token string up to the length bound, every truncation, suffix, single-byte substitution, deletion and insertion of the documents; texts of one document are deduplicated; every read of every load failing')


_CFGLIBS = {'boost_json': 'boost_json', 'jsoncpp': 'jsoncpp', 'nlohmann': 'nlohmann_json', 'picojson': 'picojson', 'poco': 'poco_json', 'ptree': 'property_tree', 'qtjson': 'qtjson', 'qvariant': 'qvariant', 'rapidjson': 'rapidjson', 'yaml': 'yaml_cpp'}


def _cfgunits():
    out = []

    def unit(lib, name, *flags, bundle=False):
        n = str(len(out))
        fl = ['-D%s=%s_c%s' % (x, x, n) for x in ('valijson', 'AdLib', 'AdReg', 'Handle', 'adLibs', 'adLib', 'adimpl', 'rj')]
        if lib == 'rapidjson':
            fl += ['-Drapidjson=rapidjson_c' + n, '-Drapidjson_assert=rapidjson_assert_c' + n]
        fl += ['-DCFG_AD="../ad/%s.cpp"' % lib, '-DCFG_NAME="%s"' % name, '-fPIC', '-I/usr/include/jsoncpp'] + _QT
        fl += ['-I{tmp}/stub', '-include', '{tmp}/bundle/%s.hpp' % _CFGLIBS[lib]] if bundle else ['-I{repo}/include']
        if lib == 'picojson':
            fl.append('-DPICOJSON_USE_INT64')
        out.append(['lib/cfg/unit.cpp', fl + list(flags)])
    on = '-DVALIJSON_USE_EXCEPTIONS=1'
    for lib in _CFGLIBS:
        unit(lib, 'headers', on)
        unit(lib, 'bundle', on, bundle=True)
    unit('rapidjson', 'Boost.Regex', on, '-DVALIJSON_USE_BOOST_REGEX=1')
    unit('rapidjson', 'bundle, Boost.Regex, exceptions off', '-DVALIJSON_USE_EXCEPTIONS=0', '-DVALIJSON_USE_BOOST_REGEX=1', bundle=True)
    unit('rapidjson', 'exceptions off', '-DVALIJSON_USE_EXCEPTIONS=0')
    unit('rapidjson', 'exceptions not mentioned')
    unit('rapidjson', 'C++20 optimised', on, '-std=c++20', '-O2', '-DNDEBUG')
    unit('rapidjson', 'stream number parser', on, '-DVALIJSON_HAS_STD_FROM_CHARS=0')
    unit('ptree', 'stream number parser', on, '-DVALIJSON_HAS_STD_FROM_CHARS=0')
    unit('yaml', 'stream number parser', on, '-DVALIJSON_HAS_STD_FROM_CHARS=0')
    unit('ptree', 'Boost.Regex, exceptions off', '-DVALIJSON_USE_EXCEPTIONS=0', '-DVALIJSON_USE_BOOST_REGEX=1')
    return out


CHECKS['C26'] = dict(level='model_checking', technique='exhaustive enumeration of configurations: every configuration compiled under namespaces of its own into one program and compared on every schema and document of the bounded families',
                     stages=[{'name': 'config', 'srcs': [['checks/config.cpp', ['-I{repo}/include']], ['lib/cfg/noexc.cpp', ['-I{repo}/include', '-fno-exceptions', '-DVALIJSON_USE_EXCEPTIONS=0', '-Dvalijson=valijson_nx', '-Drapidjson=rapidjson_nx']]] + _cfgunits(),
                              'configurations': [0] + [2 + k for k, u in enumerate(_cfgunits()) if '-DCFG_NAME="headers"' in u[1]],
                              'pre': 'lib/cfg/pre.py', 'no_repo_inc': True, 'no_exceptions_define': True, 'flags': [], 'libs': ADLIBS + ['-lboost_regex'],
                              'parts': {'quick': ['rich', 'patterns', 'formfeed', 'scalar', 'object', 'array', 'comb'], 'thorough': ['rich', 'patterns', 'formfeed', 'scalar', 'object', 'array', 'comb']}}],
                     states='configured_schemas', transitions='comparisons', traces='comparisons', nontrivial='outcomes',
                     rule='every configuration x every schema of the rich set (every library, strict and weak types) and of the keyword families (RapidJSON; a third of them in the quick tier); schemas deduplicated by text')


def coverage(pid, spec, c, dist, samples, tier):
    def get(k):
        if k is None:
            return 0
        if isinstance(k, (list, tuple)):
            return sum(get(x) for x in k)
        return dist[k] if k in dist else c.get(k, 0)
    cov = {'samples': samples or ['none'],
           'rule': spec.get('rule', ''),
           'counters': c, 'distinct_sets': dist}
    if spec['level'] == 'model_checking':
        cov.update(states=get(spec.get('states', 'states')), transitions=get(spec.get('transitions', 'transitions')),
                   traces_validated_against_impl=get(spec.get('traces', 'traces')), exhaustive=True)
    else:
        cov.update(evaluations=get(spec.get('evaluations', 'evaluations')))
    cov.update(distinct_nontrivial=get(spec.get('nontrivial', 'nontrivial')))
    return cov


NOT_APPLICABLE = {
    'C27': 'A Qt GUI driven by user events; its only logic is calling the library, and no enumeration of GUI states adds to the library properties.',
}
