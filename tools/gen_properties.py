#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the text is reviewable)."""
import json
P=[]
def p(id,title,statement,over,q,why,files,mech,state=None,obs=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        observe_at=obs or [],hook_needed=hook)))
PAL='core/src/parse/pallet.rs'; TERM='core/src/term.rs'; LIB='core/src/lib.rs'; SC='core/src/scope.rs'; TR='core/src/traits.rs'
STO='core/src/parse/storage.rs'; OVH='core/src/parse/overhead.rs'; PM='core/src/parse/mod.rs'; CLI='cli/src/main.rs'; HT='web/src/html.rs'; WM='web/src/main.rs'; TPL='web/templates/compare.stpl'
I=['inputs']
p('C01','A parsed weight function means what its source says',
 "For every weight function written in the supported Substrate syntax, the equation obtained by parsing its file has, in each dimension (reference time and proof size) and for every value of its components and of the per-read and per-write cost, exactly the value that the source expression denotes. Time and proof amounts are never swapped, dropped, duplicated or mixed, and no addition, multiplication, read or write is lost or re-associated into a different value.",
 ['programs','inputs'],'all weight expressions built from the supported constructors and combinators, all literal values, all component values, both dimensions',
 'The tests pin the term of about thirty hand-written expressions; the meaning of a nested combination, and its projection to each dimension, is never evaluated.',
 [PAL,TERM,TR],[('expression parsers',PAL),('chromatic splice and projection',TERM)],obs=['parse::pallet::parse_content','ChromaticTerm::simplify','SimpleTerm::eval'])
p('C02','Integer literals are read exactly or rejected',
 "Every decimal integer literal in a weight file, with any digit grouping by underscores and any integer type suffix, is read as exactly its value over the whole 128-bit unsigned range. A literal that is not such an integer (too large, fractional, textual, boolean) makes the file a reported parse error; it is never read as some other number.",
 I,'all literals up to the stated number of digits, every underscore placement, every suffix','Tests use a handful of literals; none near the 128-bit limit, none malformed.',
 [PAL,STO,OVH],[('literal conversion',PAL)],obs=['parse::pallet::parse_content','parse::storage::parse_content','parse::overhead::parse_content'])
p('C03','No weight file can crash the tool',
 "Parsing the content of any file, as a pallet, database or overhead weight file, ends with parsed weights or with an error value. It never aborts the process, so a malformed file in a set whose errors are ignored cannot prevent the remaining files from being compared.",
 I,'all source texts: every statement, expression, literal, attribute and item that can stand where the parser looks','Tests feed well-formed files and one wrong file; the abort sites are reached by inputs nobody wrote a test for.',
 [PAL,STO,OVH,PM],[('error returns of the parsers',PAL)],obs=['parse::*::parse_content','parse::pallet::try_parse_files'])
p('C04','Every weight function of a file is reported exactly once or the file is rejected',
 "When a pallet weight file is accepted, the result contains exactly one entry for each function of the first weight implementation of the file (for `()`, `WeightInfo` or `SubstrateWeight`), in source order, with the function's own name, its own weight and the file's pallet name. A file in which some function of that implementation cannot be understood is rejected unless a later implementation in the same file can be read completely; a function is never silently left out.",
 ['programs'],'all files of up to the stated number of items and functions, any mix of accepted, skipped and unreadable ones in any order','Tests use files with one impl or the complete Substrate template; mixed and partially unreadable files are not tried.',
 [PAL],[('item and method handling',PAL)],obs=['parse::pallet::parse_content'])
p('C05','Component ranges are taken from the annotations exactly',
 "An annotation \"The range of component `x` is `[a, b]`\" on a weight function gives component x exactly the inclusive range a to b (underscores in the numbers are digit separators), belongs only to that function, and is the range used when that component is evaluated. A range whose minimum exceeds its maximum or whose bounds do not fit 32 bits rejects the file, and other attributes or comments neither add nor change a range.",
 I,'all pairs of bounds, all component names, any number and order of annotations and other comments','One test with two fixed annotations.',
 [PAL,LIB],[('annotation parser',PAL),('range lookup',LIB)],obs=['parse::pallet::parse_content','compare_extrinsics'])
p('C06','Database and overhead weight files are read faithfully',
 "A database weight file yields the read and the write cost each from its own field, in whatever order the fields are written, labelled with the database the constant names; an overhead file yields the weight labelled as block execution or extrinsic base as the constant names. The yielded equation has the value of the source expression for every value of its constants, and a file with an unexpected constant name, type, struct or operator is rejected.",
 ['programs','inputs'],'all constants, operand orders, field orders, names and nesting of the parameter macro within the bounds','Four fixed files per kind are tested.',
 [STO,OVH],[('parameter_types handling',STO),('parameter_types handling',OVH)],obs=['parse::storage::parse_content','parse::overhead::parse_content'])
p('C07','Evaluation is exact integer arithmetic or an error',
 "Evaluating an equation in a scope returns exactly the mathematical value of the equation, with each variable standing for the value bound to it in the scope. If a needed variable is unbound or the exact value cannot be represented, evaluation returns an error; it never returns a wrong, wrapped or truncated number and never aborts.",
 I,'all equations up to the stated size, all 128-bit constants, all scopes','Tests only check that evaluation does not panic on parsed samples; no evaluation result is asserted directly.',
 [TERM,SC],[('term evaluation',TERM)],obs=['SimpleTerm::eval'])
p('C08','Free and bound variables partition an equation, and decide evaluability',
 "For every equation and scope, the free and the bound variables are disjoint, together are exactly the variables that occur in the equation, and a variable is bound exactly when the scope defines it. Evaluation reports a missing variable exactly when the free-variable set is non-empty.",
 I,'all equations up to the stated size, all scopes over the stated names','Three fixed terms are tested for free variables, none for bound variables.',
 [TERM,SC],[('free_vars / bound_vars',TERM)],obs=['Term::free_vars','Term::bound_vars','SimpleTerm::eval','Term::fmt_equation'])
p('C09','Substituting a variable preserves meaning',
 "Substituting a variable by an equation gives an equation whose value in every scope equals the value of the original equation in that scope with the variable bound to the substituted equation's value, and in which the variable no longer occurs (unless the substitute contains it). All other variables, constants and the shape of the rest are untouched.",
 I,'all equations and substitutes up to the stated size, all scopes','The only substitution test is commented out.',
 [TERM],[('substitute',TERM)],obs=['Term::substitute','Term::into_substituted'])
p('C10','Splitting a two-dimensional weight by dimension commutes with evaluation',
 "Reducing a two-dimensional (time, proof) equation to one dimension and evaluating it gives exactly that dimension of the value of the two-dimensional equation, for every scope. Lifting a plain equation into a dimension puts its whole value into that dimension and nothing into the other, and combining a time part with a proof part keeps both values exactly.",
 I,'all equations up to the stated size, all values, both dimensions','No test evaluates a chromatic term or its projection.',
 [TERM,TR],[('simplify / into_chromatic / splice_add',TERM)],obs=['ChromaticTerm::simplify','ChromaticTerm::eval','SimpleTerm::into_chromatic','ChromaticTerm::splice_add'])
p('C11','The printed equation denotes the equation',
 "The text shown for an equation, read with the usual precedence of * over + and brackets, has the same value as the equation for every value of its variables, up to the rounding of constants of 1000 and more to two decimals of their K/M/G/T unit. Omitting `0 +`, `1 *` and vanishing products never changes the value shown.",
 I,'all equations up to the stated size (including nested zeros and ones), all variable values','Twelve fixed terms are printed.',
 [TERM],[('bracket and zero/one elision',TERM)],obs=['Display for Term'])
p('C12','Suspicious storage counts are flagged exactly',
 "A comparison row carries a warning exactly when the weight it is based on (the new version if present, otherwise the old) multiplies the read or the write cost directly by a constant greater than 1000. The warning names the call, the larger of the two counts and whether these are reads or writes, and never changes or suppresses the reported values.",
 I,'all constants, both operand orders, any position in the equation, old and new versions','Fifteen fixed terms; nothing checks the warning through a comparison.',
 [LIB,TERM],[('sanity check',LIB),('find_largest_factor',TERM)],obs=['sanity_check_term','compare_files'])
p('C13','Each method evaluates components at the documented values',
 "Components are set to their lower bound for Base, to their upper bound for the two asymptotic methods, and to every combination of lower and upper bounds for the two worst-case methods. The exact methods use the annotated range and report an error for the call when a needed component has no range or differs between versions; the guessing methods take the union of two differing ranges and 0 to 100 when there is none, and calls with more than 16 components are reported as errors.",
 I,'all ranges, all presence/absence/equality combinations of ranges in old and new, all five methods, up to the stated number of components','Tests use fixed ranges that are equal or absent on both sides; differing ranges, the 16-component limit and nonzero minima are never exercised.',
 [LIB],[('component instantiation and corner product',LIB)],obs=['compare_extrinsics'])
p('C14','A worst-case comparison reports the worst corner',
 "With a worst-case method, no combination of component bounds yields a larger relative increase (at a resolution of 0.001 percentage points) than the one reported. For weights linear in each component this covers every component value within the ranges, not only the bounds.",
 I,'all coefficients, all ranges, all corners and inner points within the bounds','Tests assert five fixed results.',
 [LIB],[('maximum over the evaluated scopes',LIB)],obs=['compare_extrinsics'])
p('C15','A reported row is self-consistent and belongs to its inputs',
 "The old value, new value, equations, component assignment, method and percentage of a row belong together: the old and new value are what the shown old and new equations evaluate to under the shown assignment, the equations are those of the given old and new call in the chosen dimension, and the percentage is that of exactly these two values. A side that does not exist has neither an equation nor a value.",
 I,'all pairs of calls, methods, dimensions','Tests look at the change kind and percentage only.',
 [LIB],[('term comparison',LIB)],obs=['compare_extrinsics','compare_terms'])
p('C16','Change kinds are truthful',
 "A call that exists only in the new version is reported as added, only in the old version as removed, and in both as unchanged exactly if both equations are the same and as changed otherwise. Comparing any set of calls with itself reports every call as unchanged or as an error, under every method and dimension, and swapping old and new exchanges added and removed and keeps unchanged and changed.",
 I,'all pairs of calls, methods and dimensions','One self-comparison of one file under one method is tested.',
 [LIB],[('relative change classification',LIB)],obs=['compare_files','compare_extrinsics'])
p('C17','Database operations cost time and no proof',
 "In the time dimension each read costs 25 us and each write 100 us of reference time (25,000,000 and 100,000,000 ps) on top of the rest of the weight; in the proof dimension reads and writes contribute nothing, whatever their number. Neither dimension is influenced by the constants of the other.",
 I,'all read/write counts, all time and proof constants','No test evaluates a term with reads or writes in the proof dimension.',
 [LIB,SC],[('storage weights in scope',LIB)],obs=['compare_extrinsics','compare_files'])
p('C18','A comparison covers every selected call exactly once',
 "The result has exactly one row for each distinct (file, call) pair that occurs in the old or the new set and whose file and call names match the given filters, and no other row; the row compares the two versions of that same pair. A call that cannot be compared yields an error row and does not affect any other row, and the order of the input does not matter.",
 ['inputs','histories'],'all sets of calls up to the stated size with arbitrary name collisions between files and calls, all filters','Tests compare single extrinsics or one complete file with itself.',
 [LIB],[('pairing of old and new',LIB)],obs=['compare_files'])
p('C19','Filtering keeps exactly the relevant rows, in order',
 "Filtering keeps a changed row exactly when the magnitude of its relative change is at least the threshold, an unchanged row exactly when the threshold is (practically) zero, added and removed rows always, each only if its kind is selected; errors are always kept. Kept rows are unmodified and stay in their order, so raising the threshold never brings a row back.",
 I,'all rows, all percentages including infinite and undefined ones, all thresholds, all kind selections','Six fixed numeric cases, only for changed rows.',
 [LIB],[('filter_changes',LIB)],obs=['filter_changes'])
p('C20','Sorting orders errors and changes consistently and loses nothing',
 "Sorting a result yields a permutation of its rows in which errors come first, then unchanged, added, removed and changed rows, changed rows ascending by relative change (at a resolution of 0.001 percentage points), independent of warnings, with ties kept in their original order. The order is a consistent total preorder for every set of rows.",
 I,'all sets of rows up to the stated size, all percentages including infinite and undefined ones','Sorting is not tested.',
 [LIB],[('sort_changes',LIB)],obs=['sort_changes'])
p('C21','Relative changes have the right sign, size and boundary behaviour',
 "The relative change is positive exactly for an increase, negative exactly for a decrease and zero for equal non-zero values, is -100% for a drop to zero and infinite for a rise from zero, and never decreases when the new value grows. A change by exactly a whole number of percent reaches a threshold of that many percent.",
 I,'all value pairs within the stated ranges','Nine fixed pairs are tested, one at a boundary.',
 [LIB],[('percent',LIB)],obs=['percent','compare_terms','filter_changes'])
p('C22','Displayed quantities use the right unit and scale',
 "A value is displayed in the largest unit of its dimension that does not exceed it (ps, ns, us, ms, s for time; B, KiB, MiB, GiB for proof; none, K, M, G, T for equation constants), as the value divided by exactly that unit and shown with two decimals; values below the first larger unit are shown exactly as integers. Larger values are therefore never shown as smaller quantities.",
 I,'all 128-bit values','Only a few constants are formatted, inside equations; times and sizes are untested.',
 [LIB],[('Dimension formatting',LIB)],obs=['Dimension::fmt_value','Dimension::fmt_scalar'])
p('C23','The command line output lists every row truthfully',
 "For every result, the table and Markdown outputs contain one line per row and the CSV output one line per comparable row, each with that row's own file, call, old value, new value and change, with failed calls marked as errors in the tables. Added, removed and unchanged rows are labelled so, a changed row shows its signed percentage, with increases coloured red and decreases green unless colour is off.",
 ['inputs','configurations'],'all results up to the stated number of rows, formats, colour and term options','Tests count the word Unchanged and the absence of Added/Removed on one file.',
 [CLI],[('print_changes',CLI)],obs=['stdout of subweight compare files'],hook=None)
p('C24','The web table shows and sorts rows truthfully',
 "Every comparable row appears once in the web result table with its own values, change texts and equations, each equation linked to its source at its own revision, and its sort keys order it correctly: removed first, then changes ascending by relative (or absolute) change with unchanged at zero, then added. The sign and colour of the relative and of the absolute change always agree with the values shown, and error and warning messages are all listed and counted.",
 I,'all results up to the stated number of rows, all values within the stated range','The web table is not tested (its tests need network clones and are ignored).',
 [HT,TPL],[('order_percent / order_abs / html_color_*',HT),('compare template',TPL)],obs=['rendered compare page'])
p('C25','Request and repository text cannot inject markup into the result page',
 "Whatever the revision names, path pattern, filters and repository name of a request and the file names of a repository contain, they appear in the result page only as text or inside the attribute value they belong to: they cannot open or close a tag or an attribute, and a reader of the page gets them unchanged.",
 I,'all strings up to the stated length in every request field and file name','No test renders a page with special characters.',
 [HT,TPL],[('template escaping',TPL),('code_link',HT)],obs=['rendered compare page'])
p('C26','A commit comparison never silently compares the wrong files',
 "If any git step that is needed to put the old or the new revision into the work tree fails in any way, the comparison returns an error and never a result; with the hard-reset mode a failed reset to the remote branch falls back to the plain revision and only the failure of both is an error. On success the old rows come from files read after the old revision was checked out and the new rows from files read after the new one was, in this order.",
 ['fault_sequences','inputs'],'every combination of success, failure exit and failure to start for every git invocation, both modes, with and without pull','All commit comparison tests need cloned repositories and are ignored; git failures other than a wrong name are never provoked.',
 [LIB],[('git_checkout / git_reset / git_pull',LIB)],obs=['compare_commits','git_checkout','git_reset'])
p('C27','A revision name is never interpreted as a git option',
 "Whatever text a user or web client supplies as old or new revision, no git process is started in which that text is parsed as a command line option: a revision that begins with a dash is rejected with an error. Every other revision is handed to git unchanged.",
 I,'all revision strings up to the stated length, all modes','No test uses an unusual revision name.',
 [LIB],[('git command construction',LIB)],obs=['git_checkout','git_reset','git_pull','compare_commits'])
p('C28','Network access happens exactly when asked for',
 "A fetch from the remote is made exactly once per revision when pulling is requested and offline mode is off, and is made before that revision is checked out; with offline mode or without pulling no command that contacts a remote is run. All git commands run inside the given repository.",
 ['configurations','fault_sequences'],'all combinations of pull, offline and force, all outcomes of git','The flags are never tested.',
 [LIB],[('should_pull',LIB),('git command construction',LIB)],obs=['compare_commits'])
p('C29','Only the selected files inside the repository are read',
 "A commit comparison reads exactly the files below the repository that match at least one of the comma separated patterns and are not named mod.rs, each once; no pattern can make it read a file outside the repository directory. If one prefix of the pattern list selects more files than the limit, the comparison is refused.",
 ['inputs','configurations'],'all patterns up to the stated length over the stated alphabet, all file trees within the bound, all limits','Path patterns are only tested through ignored network tests.',
 [LIB],[('pattern check and list_files',LIB)],obs=['compare_commits'])
p('C30','Option names mean the same everywhere',
 "For every text, the method, dimension and change-kind named by it is the same in every place that accepts such a name (command line parsing, web query, text conversion), each documented name is accepted everywhere and nothing else is, and the lists offered to users pair each value with a name that selects exactly that value.",
 I,'all strings up to the stated length','Names are not tested.',
 [LIB],[('FromStr / serde / clap derive / reflect',LIB)],obs=['CompareMethod','Dimension','RelativeChange'])
p('C31','A file keeps its identity across versions',
 "In a commit comparison a file is identified by its path relative to the repository, whatever the repository's location, and in a file comparison by its file name alone; two files get the same identity exactly when these agree.",
 I,'all paths up to the stated length','Four fixed paths are tested.',
 [PM,PAL],[('path stripping',PM)],obs=['PathStripping::strip','parse::pallet::parse_file','parse::pallet::parse_file_in_repo'])
p('C32','Concurrent web requests on one repository never interleave',
 "Two simultaneous web comparisons on the same repository never interleave their checkouts, and neither gets rows computed from the other's work tree.",
 ['schedules'],'all interleavings of requests','Only an assumption about the map type is tested; the handlers are never run.',
 [WM],[('exclusive map permit',WM)],obs=['GET /compare'],hook=None)
p('C33','The web server compares and answers exactly what a request asks for',
 "A web comparison runs on the registered repository of the given name with exactly the revisions, pattern, filters, method, dimension, threshold and options of the request, and the page shows these and its result; requests that are malformed or name an unknown repository are refused without any comparison, and a failed comparison is answered by an error. A cached answer is only ever given to a request that agrees in all parameters, is marked as cached, is at most ten minutes old and is never a failure.",
 ['inputs','histories'],'all requests and all sequences of requests within the stated bounds, at all times','The tests of the server need cloned repositories and are ignored.',
 [WM,TPL],[('compare handler, do_compare_cached',WM)],obs=['GET /compare'],hook=None)
p('C34','The command line runs exactly what its arguments say',
 "A commit comparison of the command line runs once, on exactly the repository, revisions, path pattern, filters, method, dimension, threshold and switches given or their documented defaults, on all matching files, and a file comparison on exactly the calls of the files given, in their order. A file that cannot be read makes a run fail unless ignoring errors was asked for, in which case just that file is left out; a failure or an output format that cannot be printed is reported as a failure and shows no rows, and `parse files` succeeds exactly when every file can be read and then reports their number.",
 I,'all argument texts and all lists of files up to the stated length','The tests of the program run a few fixed command lines.',
 ['cli/src/main.rs',PAL],[('main: arguments and parsed files',  'cli/src/main.rs'),('parse_files, try_parse_files',PAL)],obs=['subweight compare commits','subweight compare files','subweight parse files'],hook=None)
p('C35','The server offers exactly its repositories and their branches and tags',
 "The pages offer exactly the registered repositories, and the branch list of one names each branch and tag of its remote in order under the very name it has (only peeled tags and names with braces are left out), with the beginning of the commit it points to; it fetches first if, and only if, asked to. A list for an unknown repository or a malformed query runs nothing, and a git command that fails in any way is answered by an error; the organization of a repository is the one in the GitHub address of its origin, and there is none otherwise.",
 I,'all reference names, queries, git outcomes and origin addresses within the stated bounds','Tests try four origins; the list of branches is never requested.',
 [WM,'web/src/git.rs','web/templates/root.stpl','web/templates/merge_requests.stpl'],[('branches handler',WM),('get_origin_org','web/src/git.rs')],obs=['GET /branches','GET /','GET /compare-mr'],hook=None)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
