NA = []
prop('C01', 'Scripts have one canonical form whatever their spelling',
     'Every spelling of the same script expression (terms of a sum permuted or repeated, sums nested, remarkable abbreviations '
     'used or spelled out, trailing empty operands kept or dropped) and every way of building it from its parts gives equal objects '
     'with one identical string and hash. That canonical string parses back to an equal script, prints itself unchanged and denotes the same '
     'set of singular sequences at the same layer as the expression; pickling preserves all of this.',
     ['inputs', 'programs'], 'all script expressions of layers 0 to 6 and all their spellings and constructions',
     'Identity of every concept in the language is its string: the tests parse about twenty strings, while the number of spellings '
     'grows factorially with the terms and exponentially with the layers.',
     [SCR + 'script.py', SCR + 'parser/parser.py', SCR + 'operator.py'],
     [('sum flattening, deduplication and ordering', SCR + 'script.py AdditiveScript.__init__'),
      ('empty-operand and abbreviation normalisation', SCR + 'script.py MultiplicativeScript.__init__, _render_children'),
      ('grammar', SCR + 'parser/parser.py')],
     'bounded exhaustive enumeration against a reference model',
     'Complete within the stated universe of expressions and spellings; trusts the 200-line notation model, which C06 '
     'cross-checks against the parser on every token string up to a length.', observe=['str()', '==', 'hash()', 'script()', 'pickle'])
prop('C02', 'Script ordering is a strict total order consistent with equality',
     'Comparison of any scripts is irreflexive, antisymmetric, transitive and total, agrees with equality, and orders first by layer, then the empty '
     'script, then by the number of singular sequences. Equal scripts obtained in different ways compare alike with every other script, so that '
     'sorting the same scripts gives the same sequence from any initial order.',
     ['inputs'], 'all pairs and triples of scripts',
     'Canonical strings, tables and files all depend on sort(); the tests compare a handful of pairs, transitivity needs all triples.',
     [SCR + 'script.py'], [('comparison', SCR + 'script.py Script.__lt__, canonical')],
     'exhaustive pairwise exploration of a sorted universe',
     'Every pair of the bounded universe is compared both ways; with totality on the sorted list this decides every triple.', observe=['<', '>', '==', 'sorted()'])
prop('C03', 'Singular sequences are exactly the set the expression denotes',
     'The singular sequences of a script are, without duplicates and in increasing order, exactly the combinations obtained by choosing one '
     'term in every sum; their number is the cardinal, also when terms of a sum overlap. Containment between scripts of a layer is inclusion of these sets, each singular sequence is '
     'its own only singular sequence, and layer, emptiness and grammatical class follow from the expression.',
     ['inputs'], 'all script expressions of layers 0 to 6 within the size limit, and all pairs for containment',
     'The tests check a few cardinals; a wrong position, duplicate or omission shows only on particular combinations of empty, plural and overlapping operands.',
     [SCR + 'script.py'], [('enumeration of sequences', SCR + 'script.py _compute_singular_sequences'), ('cardinal', SCR + 'script.py AdditiveScript/MultiplicativeScript.__init__'),
                           ('containment', SCR + 'script.py Script.__contains__')],
     'bounded exhaustive enumeration against a set-semantics model',
     'Complete within the stated universe; trusts the reference denotation.', observe=['singular_sequences', 'cardinal', 'in'])
prop('C04', 'Factorisation preserves meaning and depends only on the set',
     'Factorising scripts never fails and yields a script with exactly the same singular sequences (after promotion to the highest layer). The result '
     'depends only on that set: not on the order, repetition or grouping of the input nor on the hash seed of the process, and factorising it again leaves it unchanged.',
     ['inputs', 'configurations'], 'all sets of singular sequences, all input orders, all process hash seeds',
     'The tests factorise five examples in one order; the search is a greedy covering whose failures need a specific three-dimensional pattern.',
     [SCR + 'tools.py'], [('greedy box covering', SCR + 'tools.py factor'), ('reassembly', SCR + 'tools.py pack_factorisation'), ('promotion', SCR + 'tools.py promote')],
     'exhaustive enumeration of all subsets of several grids, in several orders and processes',
     'Every subset of each grid is decided against set equality.', observe=['factorize()', 'script(factorize=True)', 'promote()'])
prop('C05', 'Table cells tile the singular sequences and agree with the headers',
     'The tables of a script hold each of its singular sequences in exactly one cell (once per table when terms of a sum overlap) and nothing else, with one row per singular sequence of the first plural operand, one column '
     'per second and one tab per third, in increasing order. Every row and column header denotes exactly the cells of its row or column, and every table script exactly the cells of its table. A table that would need more than twelve headers '
     'in a dimension is refused.',
     ['inputs'], 'all scripts of layers 0 to 6', 'The tests look at shapes of a few two-dimensional tables; nested single-plural operands, sums of tables and 3-d tables combine freely.',
     [SCR + 'script.py'], [('table construction', SCR + 'script.py _compute_cells, _build_tables')],
     'bounded exhaustive enumeration against a table model', 'Complete within the stated universe.', observe=['cells', 'headers', 'tables_script'])
prop('C06', 'Only well-formed scripts within limits exist, and no history changes this',
     'A string over the script alphabet is accepted exactly when it is a well-formed script, and rejected with a parse error otherwise; no script mixes layers in one operation, exceeds layer '
     'six or has more than 360 singular sequences, however it is built. No sequence of accepted, rejected or computing calls changes what any later call returns.',
     ['inputs', 'histories'], 'all token strings; all sequences of calls',
     'Tests try four invalid strings, each in isolation; the parser is a shared stateful object with a cache of mutable results.',
     [SCR + 'parser/parser.py', SCR + 'parser/lexer.py', SCR + 'script.py', SCR + 'operator.py'],
     [('grammar and error rule', SCR + 'parser/parser.py'), ('limits', SCR + 'script.py constructors'), ('result cache', SCR + 'parser/parser.py t_parse')],
     'exhaustive token-string enumeration against a reference grammar; all call sequences to a depth, one process each',
     'All token strings up to the stated length and all call histories up to the stated depth.', observe=['script()', 'm()', 'add()', '+'])
prop('C07', 'Concurrent parsing gives every thread its sequential result',
     'When several threads parse scripts, expressions or paths, or compute on the same parsed object, each gets exactly the result or error it gets when alone, without deadlock, and the '
     'library gives the same answers afterwards. This holds whichever parsers and cached objects they share.',
     ['schedules'], 'all interleavings of threads using shared parsers and cached scripts',
     'No test starts a thread; the parsing engine keeps its position and stacks in shared objects.',
     [SCR + 'parser/parser.py', 'ieml/usl/parser/parser.py', 'ieml/usl/decoration/parser/parser.py', 'ieml/commons.py'],
     [('parser locks', SCR + 'parser/parser.py lock; ieml/usl/parser/parser.py lock; ieml/usl/decoration/parser/parser.py lock'), ('singleton', 'ieml/commons.py Singleton')],
     'stateless model checking under a controlled scheduler, preemption bounded',
     'All schedules with at most 1 or 2 preemptions at line/call/lock granularity of the listed scenarios, on the real code, one process per schedule.',
     observe=['results of the threads'])
US = 'ieml/usl/'
prop('C08', 'USLs have one canonical form whatever the order of their components',
     'However the constants, groups, group morphemes, flexion and content, roles and junction members of a polymorpheme, lexeme or word are ordered, spaced or padded with empty morphemes, and '
     'whether it is parsed or built from its parts, the result has one identical string, hash and type and is equal to every other spelling. That string parses back to an equal USL that prints the same, '
     'and grammatical class and morphemes follow from the components.',
     ['inputs', 'programs'], 'all polymorphemes, lexemes and words and all their spellings',
     'The tests parse a few words in their canonical order; the number of orders grows factorially with the roles and nested junctions.',
     [US + 'polymorpheme.py', US + 'lexeme.py', US + 'word.py', US + 'syntagmatic_function.py', US + 'parser/parser.py'],
     [('ordering of constants and groups', US + 'polymorpheme.py PolyMorpheme.__init__'), ('tree of roles', US + 'syntagmatic_function.py from_list, render_string'),
      ('grammar', US + 'parser/parser.py')],
     'bounded exhaustive enumeration against a reference model',
     'Complete within the stated universe of USLs and spellings; trusts the reference model of the notation, which C12 cross-checks.', observe=['str()', '==', 'hash()', 'usl()', 'IEMLParser.parse'])
prop('C09', 'The singular sequences of a USL are the combinations its groups allow',
     'The singular sequences of a polymorpheme are, without duplicates, exactly its constants joined with the balanced choices its groups allow (as many morphemes from each group up to its multiplicity, within the size limit); '
     'those of a lexeme are the pairs of flexion and content sequences and those of a word one such choice for every role. Cardinal, singularity and membership agree with that set, and every singular sequence is of the same kind, is contained in its USL and is its own only singular sequence.',
     ['inputs'], 'all polymorphemes with up to five constants and three groups, lexemes and words made of them',
     'The tests look at two polymorphemes; errors need a particular combination of group sizes, multiplicities and roles.',
     [US + 'polymorpheme.py', US + 'lexeme.py', US + 'word.py', US + 'syntagmatic_function.py'],
     [('balanced choices', US + 'polymorpheme.py compute_PM_singular_sequences'), ('pairs', US + 'lexeme.py _compute_singular_sequences'), ('words', US + 'word.py _compute_singular_sequences')],
     'bounded exhaustive enumeration against a set-semantics model', 'Complete within the stated universe; trusts the reference denotation.', observe=['singular_sequences', 'cardinal', 'in'])
prop('C10', 'USL ordering is a strict total order consistent with equality',
     'Comparison of polymorphemes, lexemes and words never fails, is irreflexive, antisymmetric, transitive and total, and agrees with equality; polymorphemes (first by their number of constants) come before lexemes, lexemes before words, and words before decorated USLs, which follow the order of their USL. '
     'Equal USLs obtained in different ways compare alike with every other, so that sorting gives the same sequence from any initial order.',
     ['inputs'], 'all pairs and triples of USLs', 'The tests compare three pairs; sort() in files, tables and paths needs every triple.',
     [US + 'usl.py', US + 'polymorpheme.py', US + 'lexeme.py', US + 'word.py', US + 'syntagmatic_function.py'],
     [('comparison', US + 'usl.py __lt__; do_lt of the subclasses; SyntagmaticFunction.__lt__')],
     'exhaustive pairwise exploration of a sorted universe',
     'Every pair of the bounded universe is compared both ways; with totality on the sorted list this decides every triple.', observe=['<', '>', '==', 'sorted()'])
prop('C11', 'A word is accepted exactly when its roles form a well-formed tree',
     'A list of (role, lexeme) builds a word exactly when its roles form one tree (a process with actants and qualities, a dependant or an independant quality, each role once under an existing parent, junction members numbered without a gap under one connector, '
     'a focus on an existing role); anything else is rejected with a value or parse error and nothing else. An accepted word keeps the kind, roles and lexemes it was given: each role gives back its own lexeme and the list of roles is the one it was built from, in any input order.',
     ['inputs'], 'all lists of roles up to a length', 'The tests build valid words only.',
     [US + 'syntagmatic_function.py', US + 'word.py', US + 'parser/parser.py'],
     [('building the tree', US + 'syntagmatic_function.py from_list'), ('access', US + 'syntagmatic_function.py get, as_list')],
     'exhaustive enumeration of role lists against a reference grammar of role trees', 'Every multiset of up to the stated number of addresses of a 43-address pool, in all orders.',
     observe=['SyntagmaticFunction.from_list', 'Word', 'IEMLParser.parse'])
prop('C12', 'Exactly the well-formed USL strings parse, in any history of calls',
     'A string of USL tokens is accepted exactly when it is well-formed and then denotes the polymorpheme, lexeme or word its structure says; anything else is rejected with a parse error. '
     'The answer never depends on what the same or another parser read or rejected before.',
     ['inputs', 'histories'], 'all token strings up to a length; all sequences of parser calls up to a depth',
     'The tests parse well-formed strings, each with a fresh parser.',
     [US + 'parser/parser.py', US + 'parser/lexer.py', US + 'usl.py'], [('grammar', US + 'parser/parser.py'), ('tokens', US + 'parser/lexer.py')],
     'exhaustive token-string enumeration against a reference grammar; all call histories to a depth',
     'All token strings up to the stated length; all histories up to the stated depth.', observe=['IEMLParser.parse', 'usl()'])
DEC = US + 'decoration/'
prop('C13', 'Paths name the parts of a USL exactly and suffice to rebuild it',
     'The structure of a USL lists every part once, under a path that leads back to exactly that part; each path prints to a string that parses back to an equal path. A path that leads nowhere in a USL is refused. '
     'The paths to the morphemes of a USL, with these morphemes, are enough to rebuild it. Splitting, concatenating and comparing paths agree with their text.',
     ['inputs'], 'all USLs and all their paths; all pairs of a path and a USL, all pairs of paths',
     'The tests follow a few paths of four USLs; a path is wrong only for particular combinations of flexion, groups, focus and roles.',
     [DEC + 'path.py', DEC + 'parser/parser.py', US + 'usl.py', US + 'polymorpheme.py', US + 'lexeme.py', US + 'word.py'],
     [('following a path', DEC + 'path.py deference'), ('listing the parts', 'iter_structure_path of the USL classes'), ('rebuilding', DEC + 'path.py usl_from_path_values'), ('notation', DEC + 'parser/parser.py')],
     'bounded exhaustive enumeration against a reference model of paths',
     'Complete within the stated universe of USLs; all pairs of paths and USLs of a smaller one. Rebuilding is claimed for USLs of distinct morphemes, at most three groups and flexions of the flexion paradigms.',
     observe=['iter_structure_path', 'path()', 'UslPath.deference', 'usl(list of paths)'])
prop('C14', 'Decorations are kept, printed and read back, and never leak',
     'A USL string followed by decorations parses to the undecorated USL carrying each text at exactly the part its path leads to; it prints in one canonical way which parses back to the same decorations, whatever the order of the decorations and the characters of their texts. '
     'A malformed decoration or one whose path is not in the USL is a parse error. No sequence of parses leaves a decoration on a USL parsed without it or on the morphemes other USLs share.',
     ['inputs', 'histories'], 'all USLs, decoration paths and texts; all sequences of parses up to a depth',
     'The tests print one decorated word; morphemes are shared by a cache between all USLs of a process, so a leak shows only in a history of parses.',
     [DEC + 'instance.py', DEC + 'parser/parser.py', US + 'parser/parser.py', US + 'usl.py', 'ieml/commons.py'],
     [('marking and clearing', DEC + 'instance.py; ieml/commons.py DecoratedComponent'), ('notation of the texts', DEC + 'parser/lexer.py, parser.py')],
     'bounded exhaustive enumeration against a reference model; all parse histories to a depth',
     'Complete within the stated universe; decorations on morphemes occurring more than once are outside it.', observe=['usl()', 'str()', 'get_literal'])
prop('C15', 'The 2D table of a USL tiles it along the two parts chosen',
     'A table of a USL over two of its varying parts (groups, contents or flexions; or one part against all the others) has one row and one column per singular sequence of each, in increasing order. Each cell is the USL with the two parts fixed, no cell is repeated, '
     'the cells hold every singular sequence (exactly once when all groups have multiplicity one) and then each row and column header denotes exactly the cells of its line. The announced partitions of a polymorpheme or lexeme are all choices of unrelated varying parts.',
     ['inputs'], 'all USLs and all pairs of their varying parts', 'The tests look at the sizes of three tables.',
     [US + 'table.py', US + 'decoration/path.py'], [('headers and cells', US + 'table.py UslTable2D'), ('partitions', US + 'table.py enumerate_partitions')],
     'bounded exhaustive enumeration against a substitution model', 'Complete within the stated universe. Paths of whole roles and the root path are outside it.', observe=['UslTable2D.cells, rows, columns', 'enumerate_partitions'])
DIC = 'ieml/dictionary/'
DB = 'ieml/ieml_database/'
prop('C16', 'A dictionary holds exactly the paradigms of its roots, each at its place',
     'A dictionary built from paradigms and their structure holds, in increasing order and under consistent indexes, exactly the singular sequences of its non-ignored roots and the non-ignored paradigms that form a table of one: the root itself (rank 0), main tables of a set (rank 1), rows, columns and lists (odd rank) and blocks of a table (even rank), '
     'under the smallest table that accepts them; singular sequences have rank 6. Each table shows the dimensions, cells, headers and coordinates of its script. Roots that overlap are refused. Nothing depends on the order of the paradigms or structure rows, repeated rows or the hash seed of the process, and a pickled dictionary answers the same.',
     ['inputs', 'configurations'], 'all sets of paradigms and all markings of them as root or ignored, all input orders and hash seeds',
     'The tests need a network download of one dictionary; ranks and parents depend on which other paradigms are present.',
     [DIC + 'dictionary.py', DIC + 'table/table.py', DIC + 'table/table_structure.py'],
     [('selection of scripts', DIC + 'dictionary.py Dictionary.__init__'), ('parents', DIC + 'table/table_structure.py _define_root, _build_tables'), ('acceptance and ranks', DIC + 'table/table.py accept_script, rank')],
     'exhaustive enumeration of all subsets of several paradigm families against a reference model, in several processes',
     'Every subset of each family and every marking of three paradigms; trusts the cells of a single script (decided by C05).', observe=['Dictionary.scripts, index, tables, roots_idx', 'TableStructure.root, children'])
prop('C17', 'The relations of a dictionary are those of its structure, with inverses',
     'Between the scripts of a dictionary, contains is inclusion of singular sequences within a root; father_x leads to the nearest dictionary scripts inside operand x of each term; opposed, associated, crossed and twin link the scripts of a root with swapped, equal or equal-sized operands; table_n links all scripts lying in a table of rank n. '
     'Every relation but these symmetric ones has its exact inverse, objects come in increasing order, an inhibited relation of a root is empty for that root and leaves all others untouched, and the matrix, table and pairwise views agree.',
     ['inputs', 'configurations'], 'all dictionaries of several families and all sets of inhibitions',
     'The tests need a network download and look at four scripts.',
     [DIC + 'relation/relations.py'], [('relations', DIC + 'relation/relations.py _compute_contains, _compute_father, _compute_siblings, _compute_table_rank')],
     'exhaustive enumeration of dictionaries and inhibitions against a reference model of the relations',
     'Complete within the stated families; trusts parents and ranks (decided by C16).', observe=['RelationsGraph.object, relation, relation_object, pandas, boolean_matrix'])
prop('C18', 'The database reads back exactly what was stored, after any history',
     'After any sequence of additions and removals of descriptors and structure, of any text on any kind of IEML, every reader (values of a key, partial keys, whole descriptor, lists by kind and cardinality, selected files) gives exactly the entries added and not removed, as text and in their order. '
     'A removal takes away only the entries that match all the given fields. Each IEML has one file inside the database folder, the same for all its spellings and shared with no other; what is not valid is refused and changes nothing.',
     ['histories', 'inputs'], 'all operation sequences up to a depth, all short texts over the characters with a meaning in the files, all kinds of IEML',
     'The database tests need a network; the files are read by an inferring CSV reader and edited by line prefixes, so that errors need particular texts and sequences.',
     [DB + 'ieml_database.py', DB + 'descriptors.py'],
     [('writing and removal', DB + 'ieml_database.py add_descriptor, remove_descriptor, add_structure, remove_structure'), ('file names', DB + 'ieml_database.py path_of, filename_of'),
      ('reading', DB + 'ieml_database.py get_descriptors, get_structure, list; descriptors.py')],
     'explicit-state breadth-first search on the real code against a multimap model; exhaustive enumeration of texts',
     'All histories up to the stated depth over three alphabets, all texts up to length 2 or 3 over 12 to 18 characters.', observe=['get_descriptors', 'get_structure', 'list', 'path_of', 'files'])
prop('C19', 'Cached answers of a database are those its files give',
     'The dictionary and the list of USLs a database answers from its caches are always what a database without cache computes from the same files: after any history of writes and reads through any number of database objects sharing the caches, with a cache file cut anywhere, lost or left by a process that died at any point, '
     'and whatever the interleaving of readers and a writer, no reader fails nor leaves a wrong cache behind. The list holds each stored USL whose morphemes are in the dictionary once, with its type, class, cardinality and all its descriptors, ordered by type, and morphemes in dictionary order.',
     ['histories', 'schedules', 'crash_points'], 'all operation sequences up to a depth, all crash lines, all cuts of a cache file, all interleavings up to a preemption bound',
     'The tests never use the caches; staleness needs a particular write between two reads, or a write during one.',
     ['ieml/commons.py', DB + 'ieml_database.py', 'ieml/usl/__init__.py'],
     [('cache keyed by the content of the files', 'ieml/commons.py FolderWatcherCache, cache_results_watch_files'), ('listing', DB + 'ieml_database.py get_list; ieml/usl/__init__.py get_index')],
     'explicit-state search over histories on the real code; stateless exploration of schedules and crash points under a controlled scheduler; all truncations of the cache files',
     'Two threads with their own database objects stand for two processes; the oracle is the database without cache (its reading is decided by C18), the listing is also compared with a model.',
     observe=['get_dictionary', 'get_list'], state=[{'name': 'cache files', 'meaning': 'pickled answers named by the digest of the watched files', 'where': 'ieml/commons.py FolderWatcherCache'}])
GIT = DB + 'git_interface.py'
TX = DB + 'transactions/DBTransaction.py'
prop('C20', 'A transaction on the git database is all or nothing, wherever it fails',
     'A transaction ends either as exactly one commit on the head it started from, with its author and message and exactly its changes, or as no change at all: when its body raises (anything), when any file operation fails, or when the process dies at any point, '
     'the database opened afterwards holds the state before or after it, with nothing pending, and accepts the next transaction. A transaction without change makes no commit; one on a folder with uncommitted changes is refused. Opening, reset, checkout and clone give exactly the files of their commit, also when interrupted and repeated, and leave cache files alone.',
     ['crash_points', 'histories'], 'all transactions of up to 2 or 3 operations, all points at which one fails or dies, all states of the folder before it',
     'The tests need a network and never interrupt anything; the rollback works only if index, files and head all agree.',
     [GIT], [('commit and rollback', GIT + ' git_transaction'), ('reset and opening', GIT + ' GitInterface.reset, checkout, repo')],
     'enumeration of all crash and fault points (file system calls intercepted in the process, C libraries included), all histories to a depth',
     'One fault per run; the process dies but completed system calls stay. Lock files a crash leaves are removed by hand, as git asks.',
     observe=['GitInterface.commit, reset, checkout', 'files, head and index'], state=[{'name': 'repository', 'meaning': 'head, index and files of the working folder', 'where': GIT + ' GitInterface.repo'}])
prop('C21', 'Pull merges both histories; the remote wins conflicts, what lost is returned',
     'After a pull the database is the three-way merge, file by file, of the common ancestor, the local and the remote version: changes of one side stay, a file changed differently on both sides takes the remote version and its local descriptors are returned (empty ones when it was deleted), and nothing else is. '
     'Push then publishes this state, or refuses and changes nothing; users who pull and push in any order reach the same state and lose no committed change but the returned ones. A pull or push that fails or is interrupted anywhere leaves the state before or after it, nothing pending, and can be repeated. '
     'The difference of two versions names each changed file of the database with its IEML, its added and deleted lines and whether it is new or removed.',
     ['histories', 'crash_points', 'inputs'], 'all triples of base, local and remote contents of several files, all sequences of edits, pulls and pushes of two users up to a depth, all crash and fault points',
     'The tests need a network and look at four conflicts.',
     [GIT, DB + 'descriptors.py'], [('merge and conflicts', GIT + ' GitInterface.pull'), ('publication', GIT + ' push'), ('comparison', GIT + ' diff'), ('descriptors in conflict', DB + 'descriptors.py from_csv_string')],
     'exhaustive enumeration of merges against a reference three-way merge; explicit-state search over two-user histories; all crash and fault points',
     'Textual merges inside a file are decided by git merge-file. A pull replaces uncommitted changes as documented, and fetches from the last known remote when it cannot be reached.',
     observe=['GitInterface.pull, push, diff', 'files, head and index'])
prop('C22', 'Transactions do what they announce in whole or are refused',
     'From any state of the database, creating, adding, deleting and updating root paradigms and paradigms, setting descriptors and inhibitions and migrating all IEML end in exactly the announced descriptors and structure (a root with its main tables, its inhibitions and descriptors; an updated paradigm with those of the old one; all descriptors of migrated IEML), committed after the head, '
     'or are refused and change nothing: a root that overlaps another or already exists, a paradigm of no root or of several, singular sequences, unknown paradigms, an update that leaves the root. This also holds when any file operation fails, and each transaction sees all previous ones.',
     ['histories', 'crash_points'], 'all sequences of about 110 transactions up to a depth from several databases, all failing file operations',
     'The only test needs a network and sets one tag.',
     [TX, GIT], [('transactions', TX + ' DBTransactions')],
     'explicit-state search on the real code against a row model of the database; all failing file system calls',
     'Complete within the stated operations and databases; the dictionary of a state is built by the code (decided by C16).', observe=['DBTransactions', 'files and commits'])
prop('C23', 'The parsers can always be built, whatever their cached tables hold',
     'Whatever an interrupted, failing or concurrent run left in the folder of cached parser tables (missing, cut anywhere, foreign or unreadable content, emptied meanwhile, not writable), every construction of the morpheme, IEML and path parsers succeeds in every process '
     'and the parser gives on every string the result of one built without cache. The next construction in a writable folder leaves valid tables, which it and later processes use.',
     ['crash_points', 'schedules', 'configurations'], 'all contents and cuts of the table files, all crash and fault points of a construction, all interleavings of processes up to a preemption bound',
     'Every program of the library builds the parsers when it starts and shares the tables with all others; the tests run once, alone, on an undamaged folder.',
     ['ieml/commons.py', SCR + 'parser/parser.py', 'ieml/usl/parser/parser.py', 'ieml/usl/decoration/parser/parser.py'],
     [('cached tables', 'ieml/commons.py cached_yacc; __init__ of the three parsers')],
     'enumeration of crash, fault and cut points of the cache files; stateless exploration of process schedules at file system calls',
     'Tables of another grammar under the same library version, and a folder that cannot even be created, are out of scope.',
     observe=['ScriptParser(), IEMLParser(), PathParser()', 'parse'], state=[{'name': 'parser tables', 'meaning': 'pickled LALR tables of the three grammars', 'where': 'ieml/constants.py PARSER_FOLDER'}])
prop('C24', "An answer never depends on what was or is being asked of the object or others",
     'Whatever public question is asked of a script, USL or dictionary (parts, sequences, tables, ranks, paths, classes, relations, order, copies, pickles), the answer is the one a fresh process gives: '
     'no earlier question to the same object, to one that shares parts with it or to an equal one changes it, no answer already given changes later, and two threads that ask the same or different questions of the same objects at the same time '
     'each get it, under every schedule.',
     ['histories', 'schedules'], 'all sequences of questions up to a depth over families of objects that share parts, and all interleavings of two questions up to a preemption bound',
     'Nearly every class keeps lazily computed, shared attributes; each test asks one question of a new object.',
     [SCR + 'script.py', 'ieml/usl/usl.py', 'ieml/dictionary/dictionary.py', 'ieml/dictionary/table/table.py', 'ieml/usl/decoration/instance.py'],
     [('lazy attributes', SCR + 'script.py, ieml/usl/usl.py, ieml/dictionary/table/table.py'), ('literals set on shared objects', 'ieml/usl/decoration/instance.py literal_context')],
     'exhaustive enumeration of histories in forked processes and of thread schedules under a controlled scheduler',
     'Complete within the families, questions, depth and preemption bound stated in the evidence; the oracle is the same question asked first in a fresh process.',
     observe=['the public accessors of Script, USL and Dictionary', 'pickle'])

prop('C25', 'Simplifying a word removes exactly the roles that carry nothing',
     'A polymorpheme, lexeme or word is empty exactly when it names no morpheme. Simplifying any well-formed word never fails and gives the smallest well-formed word with the same focus, the same process and the same non-empty lexemes at the same roles: '
     'what carries nothing is dropped, except what the focus, the process and the numbering of junction members need. Simplifying again changes nothing.',
     ['inputs'], 'all words over a pool of addresses and lexemes, with every focus', 'No test simplifies a word; a loss needs a particular mix of empty lexemes, junctions and focus.',
     [US + 'word.py', US + 'syntagmatic_function.py', US + 'lexeme.py', US + 'polymorpheme.py'],
     [('removal of roles', US + 'word.py simplify_word'), ('emptiness', 'empty of the USL classes and SyntagmaticFunction')],
     'bounded exhaustive enumeration against a reference model of the role tree',
     'Complete within the stated universe; a trailing empty junction member is dropped, leading ones are kept for the numbering.', observe=['simplify_word', 'empty'])
prop('C26', 'Maintaining a database moves every entry to its canonical form and loses none',
     'The maintenance scripts (normalise, rewrite words, remove the listed USLs, factorise paradigms) leave every entry of a USL whose morphemes are in the dictionary under its canonical (simplified; rewritten without default flexions; factorised when so answered) form, '
     'with all its values and structure joined to those already there, take away only the listed words, and leave all else as it was. They make one commit after the head, none if nothing changes, and change nothing when run again. '
     'When a file operation fails the database is as before or as announced. A removal without normalisation takes away only the chosen values of the spelling given.',
     ['inputs', 'histories', 'crash_points'], 'all databases that hold a few spellings of a few USLs, all failing file operations', 'No test runs a maintenance script: they are written for one remote database, and what they lose is lost in the published history.',
     ['scripts/database_management/normalize_database.py', 'scripts/database_management/rewrite_words.py', 'scripts/database_management/remove_usl.py', 'scripts/factorize_db.py', 'ieml/ieml_database.py'],
     [('migration of entries', 'scripts/database_management/normalize_database.py, rewrite_words.py, remove_usl.py, scripts/factorize_db.py'), ('removal of a spelling', 'ieml/ieml_database.py remove_descriptor, remove_structure')],
     'exhaustive enumeration of databases and failing file system calls on the real scripts, against a row model',
     'Complete within the stated databases; the address and folder written in the scripts are replaced by scratch ones.', observe=['the scripts', 'files and commits', 'remove_descriptor', 'remove_structure'])
