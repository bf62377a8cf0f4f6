"""Which harness roots decide which property, and within what bounds."""
TRUST = ['rustc 1.80 (frontend and optimiser) compiles the harness and /repo to LLVM bitcode faithfully', 'the symbolic executor in /verif/engine implements the LLVM instructions and libc calls it meets (models of finished paths are replayed natively)', 'Z3 and cvc5 answer correctly (every model is re-evaluated before use)']
WORLD = ['files, directories and processes behave as the model in harness/vs/src/world.rs: an in-memory tree behind open, read, stat and readdir, and a git that switches between given trees; the replays use real files and intercepted processes']
PAGE = ['a page is read as browsers do by harness/vs/src/html.rs (tags, attributes, comments, raw text elements, character references); integers are printed by the standard library instead of the vectorised printer of the template engine; the sources of the server are compiled into the harness as they are, with the templates of the repository']
SERVER = ['the comparison itself is a stand-in that records what it is asked for (what it does is decided by the other properties); the clock is symbolic and does not go backwards; all hashes of the cache are equal, so that only the comparison of the requests decides; the futures of the server are polled by the harness']
REG = {}
def P(id, crate, quick, bounds, outside, thorough=(), **kw):
    REG[id] = dict(crate=crate, quick=list(quick), thorough=list(thorough), bounds=bounds, outside=outside, **kw)
P('C01', 'core', ['prop_c01_leaf', 'prop_c01_wrap', 'prop_c01_tree', 'prop_c01_chain', 'prop_c01_old'],
  'every leaf form with symbolic numbers, wrapped in parentheses and casts; every tree of two levels over the leaf forms; chains of method calls; the older syntaxes; each evaluated in time and proof under symbolic components and database weights',
  'higher trees; a bare component as the whole weight', covers={'prop_c01_leaf': ['parsed'], 'prop_c01_tree': ['parsed'], 'prop_c01_old': ['parsed']})
P('C02', 'core', ['prop_c02_short', 'prop_c02_medium', 'prop_c02_long', 'prop_c02_form', 'prop_c02_groups', 'prop_c02_base', 'prop_c02_character', 'prop_c02_other'],
  'every decimal literal of 1 to 41 digits (all digits symbolic) in eight places of pallet, database and overhead files; up to five digits with every grouping by underscores and every suffix; groups of three up to 40 digits; up to three digits in base 2, 8 and 16; a digit followed by any printable character and a digit or nothing; 18 other kinds of literals',
  'longer literals', covers={'prop_c02_short': ['read'], 'prop_c02_long': ['read', 'rejected'], 'prop_c02_other': ['rejected']})
P('C03', 'core', ['prop_c03_expressions', 'prop_c03_items', 'prop_c03_pieces', 'prop_c03_byte_pallet', 'prop_c03_byte_db', 'prop_c03_byte_overhead'],
  'four complete files (pallet, database, two overhead) with one byte at any position replaced by any ASCII character; every listed expression, type, item, attribute, argument and signature form in every place; every sequence of listed syntax pieces',
  'two simultaneous changes at arbitrary places; nesting so deep that the stack of the syntax parser overflows', covers={'prop_c03_byte_pallet': ['accepted', 'rejected']})
P('C04', 'core', ['prop_c04_one', 'prop_c04_several', 'prop_c04_between'],
  'implementations with any of ten heads and up to four functions, of which any one may be of any of the listed forms that cannot be understood; up to three implementations with eight kinds of items around them; function names and numbers symbolic; listed items between the functions',
  'more functions, more than one unreadable function', covers={'prop_c04_one': ['read', 'rejected']})
P('C05', 'core', ['prop_c05_digits', 'prop_c05_form', 'prop_c05_other', 'prop_c05_functions'],
  'every pair of bounds of 1, 2, 3, 9, 10 or 11 digits; three-digit bounds with every grouping, leading zeros, several spacings, wordings and component names; attributes that are not ranges; several functions and several ranges per function',
  'other wordings and names', covers={'prop_c05_digits': ['range', 'rejected']})
P('C06', 'core', ['prop_c06_db', 'prop_c06_no_db', 'prop_c06_overhead', 'prop_c06_no_overhead'],
  'both databases, both overheads, in four surroundings, with ten and eleven forms of expressions over two-digit and one-digit numbers and a constant of any value up to 2^40; 30 malformed constants; constants in other places',
  'other expressions', covers={'prop_c06_db': ['read'], 'prop_c06_overhead': ['read']})
P('C07', 'core', ['prop_c07_tree1', 'prop_c07_2d_tree1', 'prop_c07_2d_spine2', 'prop_c07_tree2'],
  'every one-dimensional equation of height at most 2 over constants, a bound variable, a variable bound to an equation and an unbound variable; every two-dimensional equation of at most two operators; all constants over the whole 128 bit range',
  'higher equations; more than three variables', thorough=['prop_c07_tree2_5'])
P('C08', 'core', ['prop_c08_names', 'prop_c08_symbolic_names'],
  'every equation of height at most 2 over x, x_, y and a constant with every scope over these names; every equation of height 1 and every scope of at most 2 entries, with names of two symbolic characters out of A a b _',
  'higher equations, longer names; scopes whose entries are themselves equations', thorough=['prop_c08_symbolic_spine2'])
P('C09', 'core', ['prop_c09_tree1', 'prop_c09_tree2', 'prop_c09_symbolic_names'],
  'every equation of height at most 2 over x, x_ and a constant (height 1 also over y), with substitutes constant, variable, sum, product and one that contains x; names of one or two symbolic characters; values below 100',
  'higher equations', covers={'prop_c09_tree1': ['value']})
P('C10', 'core', ['prop_c10_tree1', 'prop_c10_spine2', 'prop_c10_lift1', 'prop_c10_lift2', 'prop_c10_splice'],
  'every two-dimensional equation of at most two operators with all constants over the whole 128 bit range; lifting of every equation of height 1 (128 bit) and 2 (constants below 1000, variables below 16); combination of parts with up to two summands and 100 bit values',
  'higher equations', covers={'prop_c10_tree1': ['value'], 'prop_c10_lift1': ['value']})
P('C11', 'core', ['prop_c11_tree1', 'prop_c11_tree2', 'prop_c11_big', 'prop_c11_spine3_small'],
  'every equation of height 1 (constants up to 2^40) and 2 (constants below 16), three nested operators with a leaf on one side (constants below 4), variables below 8; agreement at 8 values per variable implies agreement at all, as no variable has degree above 4',
  'higher equations; the rounding of constants of 1000 and more is checked by C22', thorough=['prop_c11_spine3'])
P('C12', 'core', ['prop_c12_flag', 'prop_c12_terms'],
  'equations of two summands, each one of seven forms of reads, writes, products and constants; old only, new only and both; the test itself for every equation of height at most 2 over READ, WRITE and constants (128 bit)',
  'counts above 2^40 in whole comparisons', covers={'prop_c12_flag': ['warning', 'clean']})
P('C13', 'core', ['prop_c13_one', 'prop_c13_two', 'prop_c13_limit', 'prop_c13_at_limit'],
  'every method; one component in the old, the new or both versions with every combination of present, absent, equal and differing 32 bit ranges and 60 bit coefficients; two components likewise; 16, 17 and 18 components',
  'three to fifteen components with differing ranges', covers={'prop_c13_one': ['evaluated', 'refused'], 'prop_c13_two': ['evaluated']})
P('C14', 'core', ['prop_c14_one', 'prop_c14_split', 'prop_c14_two'],
  'both worst-case methods, one or two components with any 32 bit ranges and 64 bit coefficients, bilinear weights included; all corners',
  'three and more components; inner points follow from the corners for weights linear in each component (monotone quotient), which is not checked separately')
P('C15', 'core', ['prop_c15_files', 'prop_c15_row'],
  'every method and dimension, old and new present or absent, each of up to four equation forms with 40 bit constants and any range of the component; whole comparisons of two old and two new calls with 60 bit constants',
  'larger equations', covers={'prop_c15_files': ['row']})
P('C16', 'core', ['prop_c16_kind', 'prop_c16_self'],
  'every method and dimension, old and new present or absent with up to four equation forms each, both orders; sets of two calls compared with themselves, constants over the whole 128 bit range',
  'larger equations')
P('C17', 'core', ['prop_c17_db', 'prop_c17_versions'],
  'two versions of a weight that differ in one or two of time, proof, reads and writes; a weight with time and proof parts, a component, reads, writes and reads per component, all counts and constants symbolic up to 64 bit; every method and dimension, either version',
  'other shapes of equations')
P('C18', 'core', ['prop_c18_pairs11', 'prop_c18_pairs12', 'prop_c18_pairs22', 'prop_c18_order', 'prop_c18_filter', 'prop_c18_errors'],
  'up to two old and two new calls with any file and call names out of three letters each; every order of three and three calls; four and four calls under 49 pairs of filters with known matches; three calls of which one cannot be compared, for every position, side and two reasons',
  'larger sets; longer symbolic names; duplicate calls within one set; other regular expressions')
P('C19', 'core', ['prop_c19_one', 'prop_c19_raise', 'prop_c19_list2', 'prop_c19_list3'],
  'every row kind with and without warning, every 64 bit pattern as percentage, every threshold that is a number, every selection of kinds; lists of up to three rows',
  'longer lists', covers={'prop_c19_one': ['kept', 'dropped']})
P('C20', 'core', ['prop_c20_two', 'prop_c20_three', 'prop_c20_kinds'],
  'two rows of any kinds, warnings and 64 bit percentages; three rows that are changed, unchanged or errors with any percentages; four rows of every combination of kinds with fixed percentages',
  'more rows (the standard library sorts more than 20 rows by another algorithm)')
P('C21', 'core', ['prop_c21_edges', 'prop_c21_range', 'prop_c21_monotone', 'prop_c21_whole', 'prop_c21_sign'],
  'special values, absence of undefined results, lower bound and monotonicity for all 128 bit values; the sign for values below 2^46; twelve whole percentages for multiples up to 100*2^33',
  'sign of changes of values of 2^46 and more, where the quotient of two neighbouring values rounds to 1')
P('C22', 'core', ['prop_c22_time', 'prop_c22_proof', 'prop_c22_scalar'],
  'every 128 bit value in all three scales',
  'the decimal digits printed for a given floating-point number, which the standard library produces')
P('C23', 'cli', ['prop_c23_values', 'prop_c23_rows', 'prop_c23_options', 'prop_c23_filter', 'prop_c23_files'],
  'one row of every kind with any 64 bit values and any percentage in all three formats, both units, with and without colour; three rows of every combination of kinds; every method, unit and output option; five thresholds and six selections of kinds; the results are given to the program in place of the comparison, and 64 pairs of files go through the whole program',
  'more rows; file names with separators of the formats; JSON and the brief format, which the program refuses', covers={'prop_c23_values': ['error', 'unchanged', 'added', 'removed', 'changed'], 'prop_c23_files': ['failed', 'changed']}, assume=WORLD)
P('C24', 'web', ['prop_c24_values', 'prop_c24_rows', 'prop_c24_relative', 'prop_c24_absolute', 'prop_c24_distinct'],
  'one row of every kind with any values below 2^127 and any percentage, in both units; three rows of every combination of kinds; the sort keys of two rows of any kinds with any percentages and with any values below 2^127 (small or from 2^90 on); any percentage up to 2000000 against six fixed ones',
  'more rows; values from 2^127 on; percentages above 4294967, which the page sorts as equal', covers={'prop_c24_values': ['message', 'unchanged', 'added', 'removed', 'changed', 'same value'], 'prop_c24_relative': ['apart', 'near'], 'prop_c24_absolute': ['apart', 'near'], 'prop_c24_distinct': ['smaller', 'larger']}, assume=PAGE)
P('C25', 'web', ['prop_c25_text', 'prop_c25_http'],
  'any text of up to two ASCII characters and three longer hostile ones in each parameter of the address of a comparison and of the version page, from the request to the answer; any text of up to three ASCII characters in each of the request fields, the organisation, the repository names, the file name, the function name, the error and the warning of the result page, and on the error and the start page',
  'longer texts, other characters', thorough=['prop_c25_long', 'prop_c25_http_long'], covers={'prop_c25_text': ['page'], 'prop_c25_http': ['answer']}, assume=PAGE + SERVER)
P('C26', 'core', ['prop_c26_outcomes', 'prop_c26_unknown'],
  'every sequence of outcomes of the git processes (success, any exit code, any signal, failure to start), with both branches, one or none on the remote, in all eight combinations of force, pull and offline; every unknown revision out of seven, among them names of files and directories',
  'a git that reports success without doing its work; other processes changing the work tree meanwhile', covers={'prop_c26_outcomes': ['compared', 'refused']}, assume=WORLD)
P('C27', 'core', ['prop_c27_text', 'prop_c27_commits'],
  'every revision of at most four printable characters given to each of the three git functions, in every mode and with every outcome of git; every revision of at most three characters given to a whole comparison',
  'longer revisions; characters outside printable ASCII', covers={'prop_c27_text': ['dash', 'plain']}, assume=WORLD)
P('C28', 'core', ['prop_c28_network'],
  'all sixteen combinations of pull, offline, force and ignored errors, every sequence of outcomes of the git processes (success, any exit code, any signal, failure to start), three places of the repository',
  'what git itself does over the network (a partial clone fetching missing objects)', covers={'prop_c28_network': ['local', 'fetched']}, assume=WORLD)
P('C29', 'core', ['prop_c29_patterns', 'prop_c29_characters', 'prop_c29_hostile', 'prop_c29_limit'],
  'a tree of twelve files surrounded by four others, under every pair out of 22 patterns in three places of the repository; any printable character at ten places of patterns; every pattern of five characters out of . * / s [ with three ends; every limit up to nine for seven pattern lists',
  'symbolic links; other trees; which files exactly patterns with several arbitrary characters select', thorough=['prop_c29_hostile_long', 'prop_c29_characters_two'], covers={'prop_c29_patterns': ['listed', 'refused'], 'prop_c29_limit': ['over', 'within']}, assume=WORLD)
P('C30', 'web', ['prop_c30_text', 'prop_c30_lists', 'prop_c30_places'],
  'every ASCII text of up to 17 characters, longer than any name, read by text conversion, by the web query types and by the command line types in both case modes; all entries of the lists; the selection of all pairs of a method and a dimension in the page; every combination of documented names in lower and upper case through the whole argument parser and the whole query parser',
  'texts with other characters; longer texts', covers={'prop_c30_text': ['named', 'unknown'], 'prop_c30_lists': ['page'], 'prop_c30_places': ['command line', 'query']}, assume=PAGE)
P('C31', 'core', ['prop_c31_commits', 'prop_c31_files', 'prop_c31_strip'],
  'two files at any of three depths with names out of three letters in repositories at six places; files given directly in four forms; every relative path of up to five characters out of / . a b below nine repositories',
  'longer names; paths with parent directories', thorough=['prop_c31_strip_long'], covers={'prop_c31_commits': ['same', 'different'], 'prop_c31_files': ['same', 'different']}, assume=WORLD)
P('C33', 'web', ['prop_c33_http', 'prop_c33_refused', 'prop_c33_request', 'prop_c33_twice', 'prop_c33_thrice'],
  'a request from its address to the page: any text of up to two printable characters in each text parameter, any threshold of up to three digits, every value of every other parameter, every parameter missing or malformed; the comparison of a request with any one character in all texts with and without blanks around them, any threshold, every option and three repositories; every sequence of two and three requests that differ in any one parameter, at any times, with every outcome of the comparison',
  'requests at the same time (C32); requests that differ in two parameters at once; character references in parameters, which the server decodes', thorough=['prop_c33_http_long', 'prop_c33_four'], covers={'prop_c33_http': ['compared', 'failed'], 'prop_c33_refused': ['refused'], 'prop_c33_request': ['compared', 'failed', 'unknown'], 'prop_c33_twice': ['compared', 'cached']}, assume=PAGE + SERVER)
P('C34', 'cli', ['prop_c34_texts', 'prop_c34_pairs', 'prop_c34_switches', 'prop_c34_choices', 'prop_c34_files', 'prop_c34_parse', 'prop_c34_formats'],
  'each of the six texts of a commit comparison with every printable text of 1 to 4 characters; two texts of three characters at a time; all 16 settings of the switches; 75 combinations of method, unit and threshold; up to two files on either side, each good, with another number of calls, malformed or missing; every format name of four letters; the library answers with three rows or an error',
  'longer texts and texts that are not ASCII; values given as a separate word that begin with a dash; verbose output; whether the comparison itself is right, which the other properties decide', thorough=['prop_c34_texts_long', 'prop_c34_files_long'], covers={'prop_c34_texts': ['compared'], 'prop_c34_switches': ['compared', 'failed'], 'prop_c34_files': ['refused', 'strict', 'lenient'], 'prop_c34_parse': ['refused', 'accepted'], 'prop_c34_formats': ['printed', 'unsupported', 'refused']}, assume=WORLD)
P('C35', 'web', ['prop_c35_listed', 'prop_c35_refused', 'prop_c35_origin', 'prop_c35_offered'],
  'up to two references, each a branch, a tag or a peeled tag, with any printable name of one character that git admits or one of four longer ones; with and without fetching; git failing, killed or not started; every query without a known repository; any origin that differs from a GitHub address in one character, with up to two characters for the organization and three ends; up to two registered repositories with any printable character for a name or an organization',
  'longer names and more references; the rest of the start of the server; the scripts of the pages', thorough=['prop_c35_listed_long', 'prop_c35_origin_long', 'prop_c35_offered_long'], covers={'prop_c35_listed': ['listed', 'name'], 'prop_c35_refused': ['refused'], 'prop_c35_origin': ['organization', 'none'], 'prop_c35_offered': ['offered']}, assume=WORLD + PAGE)
NA = {'C32': 'the property is about interleavings of actix workers over dashmap locks and the cached crate with wall-clock lifetimes; the async runtime, threads and clock cannot be encoded by this executor, and sampling schedules would be another technique'}
