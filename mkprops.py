"""Writes properties.jsonl (kept as code so that the statements stay in one place)."""
import json
EQ, GR, DI, CO, UT = ('NRWAL/handlers/equations.py', 'NRWAL/handlers/groups.py',
                      'NRWAL/handlers/directories.py', 'NRWAL/handlers/config.py',
                      'NRWAL/utilities/utilities.py')
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))


prop('C01', 'Loads under storage faults are exact or fail loudly',
     'Loading an equation group, a variables file, an equation directory or a config from storage while reads, '
     'listings or look-ups fail, access is denied, or files vanish, are truncated, corrupted or replaced, either '
     'raises an error or returns an object that holds exactly what the files stored at some instant during the '
     'load. No file, subdirectory, formula, variable or config entry is silently skipped, shortened, defaulted or '
     'invented, and a stored file that is not a valid definition is always refused.',
     ['fault_sequences', 'inputs', 'schedules'],
     'every directory tree with distinct file names (extensions aside), every placement of I/O errors and torn/corrupt/replaced files inside the load',
     'The tests load a handful of intact trees plus one directory of statically bad files; no I/O call ever fails, '
     'no file is ever truncated, and nothing changes while a load is in progress.',
     [GR, DI, CO],
     [('exists check, open, yaml/json load and type checks that raise', GR + ':_parse_group'),
      ('sorted listing, per-entry classification, errors wrapped in RuntimeError', DI + ':_parse_eqn_dir'),
      ('config and pointer file loading', CO + ':_load_config')],
     observe=['exception or keys()/items()/eval()/default_variables of the loaded object'])

prop('C02', 'Failed loads leave no residue; a retry succeeds once faults stop',
     'A load that fails on a fault or is interrupted at any instant leaves no open file, no change to the arguments '
     'it was given and no change to anything loaded before. The first load attempted after the faults stop succeeds '
     'within a bounded number of steps and equals a load that never saw a fault.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every fault or interruption point inside a load, every sequence of failed attempts before the good one',
     'No test retries anything after a failure, interrupts a load, or looks at what a failed load left behind.',
     [GR, DI, CO],
     [('context managers around every open', GR + ':_parse_group'),
      ('no state outside the object under construction', DI + ':_parse_eqn_dir'),
      ('config dictionary handling', CO + ':_load_config')],
     observe=['open file objects', 'the dictionaries passed in', 'objects loaded earlier', 'the retry'])

prop('C03', 'Loaded objects are snapshots and every load is fresh',
     'Once a group, variables file, directory or config has been loaded, later changes to the files (rewrites of any '
     'size or timestamp, renames, deletions), to the dictionary it was built from or to the working directory never '
     'change any answer it gives. Each new load reflects what the files hold at the time of that load, whatever was '
     'loaded before from the same path.',
     ['histories', 'schedules'],
     'every history of writes, deletions, directory changes, loads and queries',
     'Tests load each file once from a tree that never changes, so a cache keyed on the path, or a lazy read, passes.',
     [GR, DI, CO],
     [('eager parsing of every file in the constructors', DI + ':_parse_eqn_dir'),
      ('eager parsing, private copy of the mapping', GR + ':_parse_group'),
      ('pointers resolved while loading', CO + ':_load_config')],
     observe=['answers of objects loaded before and after each change'])

prop('C04', 'Load results do not depend on enumeration order, hash seed or thread',
     'For a given set of files every load yields the same keys in the same order, the same printed form, the same '
     'variables, defaults and required inputs, and the same values. This holds whatever order the operating system '
     'lists directory entries in, whatever the process hash seed is, and whatever other threads are loading.',
     ['schedules', 'inputs', 'configurations'],
     'every tree (including name clashes between extensions), every listing order, every hash seed, every interleaving of loads',
     'Tests run with one hash seed on one file system and never compare two loads of the same tree.',
     [EQ, GR, DI, CO],
     [('sorted directory listing', DI + ':_parse_eqn_dir'),
      ('sorted variable names', EQ + ':parse_variables'),
      ('sorted required/missing inputs', CO + ':required_inputs')],
     observe=['keys(), str(), variables, default_variables, required_inputs, eval()'])

prop('C05', 'Default variables follow directory scope, and overrides do not persist',
     'A formula in a loaded directory has as defaults exactly the variables files of its own directory and of its '
     'ancestors inside the loaded root, the nearest winning, plus defaults set explicitly on an enclosing object - '
     'never those of a sibling or descendant directory. Explicitly set defaults reach every formula below the object '
     'they are set on, except that a directory with its own variables file keeps its values at and below it unless '
     'the update is forced. Values passed to an evaluation override defaults for that evaluation only.',
     ['histories', 'inputs'],
     'every tree of variables files and every history of loads, explicit default updates and evaluations',
     'One test checks a few defaults in one fixed three-level chain; it has no sibling directories after one with a '
     'variables file, no explicit update and no repeated evaluation.',
     [EQ, GR, DI],
     [('recursive default propagation', DI + ':set_default_variables'),
      ('group propagation', GR + ':set_default_variables'),
      ('copied evaluation namespace', EQ + ':_merge_vars')],
     state=[('_default_variables', 'defaults per object', 'all handlers')],
     observe=['default_variables at every level', 'eval() with and without overrides'])

prop('C06', 'Concurrent readers of shared library objects get the answers they get alone',
     'When several threads retrieve, evaluate, print, list and combine formulas of the same loaded equation, group '
     'or directory at the same time, every call returns the value, or fails with the error, that it gives when no '
     'other thread is running, under every interleaving.',
     ['schedules', 'histories'],
     'every interleaving of any number of reading threads, at bytecode granularity',
     'The test suite is single threaded.',
     [EQ, GR, DI],
     [('per-call workspace for parenthesised key math', GR + ':_getitem_math'),
      ('per-call copied namespace', EQ + ':evaluate'),
      ('new objects for arithmetic', EQ + ':__eqn_math')],
     observe=['return values and errors of each call in the concurrent history'])

prop('C07', 'Queries leave no trace, even when they fail or are interrupted',
     'Retrieving, evaluating, printing, listing and combining formulas of a loaded object, including calls that fail '
     'on bad arguments or are interrupted midway, never change the answer of any later call. They never change the '
     'arguments passed in.',
     ['histories', 'crash_points', 'fault_sequences'],
     'every history of successful, failing and interrupted queries; every interruption point',
     'Tests do not ask the same question twice with other queries, failures or interruptions in between.',
     [EQ, GR, DI],
     [('copied evaluation namespace', EQ + ':_merge_vars'),
      ('argument checking', EQ + ':_check_input_args'),
      ('new objects for arithmetic and interpolation', GR + ':_getitem')],
     observe=['answers before and after', 'argument dictionaries and arrays'])

prop('C08', 'Derived objects are exact and independent of their operands',
     'Arithmetic between formulas, replacing a formula and merging two groups or two directories return new objects '
     'that hold exactly what the operands held at that time, the right-hand operand winning on a clash of keys or '
     'defaults (in a merge, defaults of the right-hand object apply to the whole result as an unforced default '
     'update). From then on no sequence of default updates or further derivations on an operand or on the result '
     'changes the other, and operands are never changed by the operation itself.',
     ['histories', 'inputs'],
     'every history of derivations and default updates over a pool of objects',
     'Three tests merge or add once and inspect only the result; operands are never checked or changed afterwards.',
     [EQ, GR, DI],
     [('copied default variables', EQ + ':__eqn_math'),
      ('deep copy of the left operand', GR + ':__add__'),
      ('deep copy of the left operand', DI + ':__add__'),
      ('replace_equation', EQ + ':replace_equation')],
     observe=['answers and defaults of every object in the pool after every step'])

prop('C09', 'A completed config evaluation reflects the inputs in force',
     'Whatever sequence of input updates, clears, evaluations and output resets came before, a completed evaluation '
     'of a config returns for every formula entry the value, by ordinary arithmetic over library formulas, other '
     'entries and constants, for the inputs in force at that call. Results already returned by an earlier evaluation '
     'are not altered by a later one.',
     ['histories', 'inputs'],
     'every config over a library and every history of input changes, resets and evaluations on it (inputs do not name config entries)',
     'Each test evaluates a config once (one test evaluates a second time only to see an error), so results left '
     'over from an earlier evaluation are never noticed.',
     [CO, EQ, GR],
     [('solve loop over entries', CO + ':evaluate'),
      ('input updating', CO + ':inputs.setter'),
      ('expression parsing', CO + ':_parse_equation')],
     state=[('_inputs', 'inputs in force', CO), ('_outputs', 'results of the last evaluation', CO)],
     observe=['dictionary returned by evaluate(), outputs, item access'])

prop('C10', 'Failed or interrupted config calls never corrupt the config',
     'A config call that fails or is interrupted at any instant - bad or missing inputs, a numeric failure, memory '
     'exhaustion, Ctrl-C - never reports a partial evaluation as complete and never leaves values of two evaluations '
     'side by side in the outputs. An input update that is rejected or interrupted is applied completely or not at '
     'all, and the next evaluation with good inputs completes with exact results.',
     ['fault_sequences', 'crash_points', 'histories'],
     'every failure or interruption point inside input updates, evaluations and resets, at every position of a history',
     'Tests never interrupt anything and stop at the first exception.',
     [CO, EQ],
     [('outputs stored entry by entry in the solve loop', CO + ':evaluate'),
      ('input updating and checking', CO + ':inputs.setter')],
     state=[('_inputs', 'inputs in force', CO), ('_outputs', 'results so far', CO)],
     observe=['inputs, outputs, solved, to_be_solved after the failure; the next evaluation'])

prop('C11', 'Configs are isolated from each other and from their source data',
     'Configs built from the same dictionary or file, or built and evaluated at the same time in different threads, '
     'each behave as if they were the only one, and entries of one config that refer to the same library formula or '
     'entry stay separate, each under its own name. Dictionaries, tables and arrays handed to a config are never '
     'modified by it.',
     ['schedules', 'histories', 'inputs'],
     'every interleaving of threads building and evaluating configs from shared source data, every history of reuse',
     'Tests build each config once, in one thread, from data they do not look at again.',
     [CO, GR, DI, EQ],
     [('own equation directory per config', CO + ':__init__'),
      ('config dictionary handling', CO + ':_load_config'),
      ('entry parsing and naming', CO + ':_parse_expression')],
     observe=['results of each config', 'printed names of entries', 'the shared dictionaries, tables and arrays'])

prop('C12', 'A restored copy is equivalent to, and independent of, the original',
     'An equation, group, directory or config that is pickled or deep-copied at any point of its life and restored, '
     'in this process or in a new one after the original is gone, gives the same answers as the original did at that '
     'point. Later operations on the original or on the copy do not affect the other.',
     ['crash_points', 'histories'],
     'every point of every history at which the process is lost and only the serialised state survives',
     'No test copies or serialises any object, although configs are handed to worker processes in production.',
     [CO, DI, GR, EQ],
     [('attribute fall-back must follow the attribute protocol', CO + ':__getattr__'),
      ('plain attribute state', EQ + ':__init__')],
     observe=['answers of the restored object, in a fresh interpreter'])

prop('C13', 'A config tells the truth about what it needs and what it has solved',
     'At every point of a config\'s life the missing inputs it reports are exactly the input names without which '
     'evaluation is refused; once values for them are supplied it reports itself solvable and evaluation completes. '
     'It reports itself solved exactly when every formula entry has a result, and the entries still to be solved are '
     'exactly the others.',
     ['histories', 'inputs', 'fault_sequences'],
     'every config (entries in any order) and every history of input updates, clears, resets, failed and completed evaluations',
     'Tests look at the reported lists for one config and one growing set of inputs.',
     [CO, EQ],
     [('missing/required inputs', CO + ':missing_inputs'),
      ('to_be_solved / solved', CO + ':to_be_solved'),
      ('solve loop', CO + ':evaluate')],
     observe=['required_inputs, missing_inputs, solvable, solved, to_be_solved and evaluate()'])

prop('C14', 'Circular definitions end in an error; nothing ever hangs',
     'Loading a group, building a config or evaluating it always ends with a result or an error within a bounded '
     'number of steps. A definition that depends on itself, directly or through any chain of formulas, config entries '
     'or pointers between config files, is always refused with an error: when it is loaded or built if the cycle runs '
     'through formulas of one group, config entries or pointers, and at the latest when it is evaluated if it also '
     'runs through variables of library formulas. The same objects load again as soon as an edit removes the cycle.',
     ['histories', 'inputs', 'fault_sequences'],
     'every dependency graph and every history of edits that creates or removes cycles across files',
     'Four static files with short cycles through the checked entry are tested.',
     [GR, CO, EQ],
     [('self-reference check', EQ + ':verify_no_self_reference'),
      ('substitution loop', GR + ':_parse_group'),
      ('circular reference check', CO + ':_check_circ_ref'),
      ('bounded number of solve passes', CO + ':evaluate')],
     observe=['exception or result within the step budget'])

prop('N01', 'Config and key expressions follow ordinary arithmetic',
     'Every arithmetic expression accepted in a config or as a retrieval key evaluates with the usual precedence, '
     'associativity, unary signs and number formats.',
     ['inputs'], 'every expression', 'A few dozen expressions are tested, several without an assertion.',
     [CO, GR, EQ, UT], [('recursive splitting on operators', CO + ':_parse_equation')])
prop('N02', 'Reported variables of a formula are exactly its free names',
     'For every formula text the reported variable names are exactly the names that must be supplied to evaluate it.',
     ['inputs'], 'every formula text', 'A few formulas are tested.', [EQ],
     [('tokenising by delimiters', EQ + ':parse_variables')])
prop('N03', 'Size and year look-ups interpolate linearly between the nearest formulas',
     'A request for a size or year that has no formula yields, depending on the flags, the linear inter- or '
     'extrapolation of the two nearest, the nearest one, or a key error.',
     ['inputs'], 'every set of sized or dated formulas and every request', 'A few requests are tested.', [GR],
     [('nearest search and interpolation', GR + ':_getitem')])
prop('N04', 'Forbidden formula text is never evaluated',
     'A formula that contains an import, system access or dynamic evaluation is refused however it is supplied.',
     ['inputs'], 'every formula text', 'No test supplies forbidden text.', [EQ],
     [('substring blacklist', EQ + ':_preflight')])
prop('N05', 'The shipped library and default configs are complete and reproduce ORCA',
     'Every shipped formula and default config loads, evaluates and reproduces the published baseline costs.',
     ['inputs', 'configurations'], 'every shipped file and every site', 'Baselines are sampled (and skipped here).',
     ['NRWAL/analysis_library', 'NRWAL/default_configs'], [('data files', 'NRWAL/analysis_library')])

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
