"""Registry: which proof units and which concrete harnesses decide each property."""

TRUSTED = [
    'clang 18 front end: name lookup, overload resolution, template instantiation and implicit conversions of the extracted AST',
    'tools/cxx2why.py: the mechanical translation of the AST into WhyML (what it drops is listed in DESIGN.md)',
    'specs/stl.mlw: the model of std::vector, std::array, std::tuple, std::pair, iterators as (container, index) and std algorithms',
    'Why3 1.6.0 VC generation and its SMT drivers; z3 4.8.12, z3 5.3.2 (z3-new), cvc5 1.1.2 answering unsat',
]
ASSUMPTIONS = [
    'machine integers of 32 bits and more are treated as mathematical integers (narrower types are exact); memory allocation does not fail',
    'objects reached through two parameters of one call do not alias unless the contract says so',
]

PROPS = {
    'P01': dict(
        units=[dict(name='charclass_char', spec='charclass', args=['char']),
               dict(name='charclass_uchar', spec='charclass', args=['unsigned char'], thorough_only=True),
               dict(name='charclass_wchar', spec='charclass', args=['wchar_t'], thorough_only=True)],
        harness=[dict(src='charclass.cpp', core=['CharClass.cpp'], bound='classes of up to 3 ranges over 8 boundary points, pairs over 6 boundary points, plus seeded random classes of up to 6 ranges; char, unsigned char, wchar_t',
                      covers='failing-input search for every contract of the unit; hash, copying, constructors (bounded only)')]),
}

PROPS['P06'] = dict(
    units=[dict(name='stream', spec='stream')],
    harness=[dict(src='stream.cpp', core=[], budget=(12, 300), bound='every text of up to 5 (thorough 7) characters over / * LF CR blank letter U+2028 with fixed call sequences, plus seeded random texts of up to 24 characters and call sequences of up to 14 calls',
                  covers='failing-input search for every contract of the unit; the text of the error messages (line number)')],
    assumptions=['iswspace classifies NUL, / and * as not white space and blank, TAB, LF, CR as white space (C standard, every locale)', 'peek(n) is called with n >= 1'],
    note='Every member of Stream carries a contract (position, delivered character, end of text, line count, exact extent of skipped gaps); all obligations discharged for every text. Trusted: clang AST, translation, STL model, iswspace facts, solvers.')

PROPS['P01']['note'] = ('Every CharClass operation in src/core/CharClass.cpp and CharClass.hpp carries a contract stating set semantics and canonical form; all obligations are generated from the current source and '
    'discharged for every class and every character. Trusted: clang AST, the AST-to-WhyML translation, the STL model, the solvers. Hash, copying and iterator-range constructors are covered by the bounded harness only.')

PROPS['P02'] = dict(
    units=[dict(name='ccparse_char', spec='ccparse', args=['char']), dict(name='ccparse_wchar', spec='ccparse', args=['wchar_t'], thorough_only=True), dict(name='ccparse_uchar', spec='ccparse', args=['unsigned char'], thorough_only=True)],
    harness=[dict(src='ccparse.cpp', core=['CharClass.cpp'], budget=(12, 300), bound='every notation of up to 4 (thorough 6) characters over a b d - \\ ] ^ n CR LF with and without a closing bracket, every escape, plus seeded random notations of up to 8 items; char and wchar_t',
                  covers='failing-input search for every contract of the unit')],
    assumptions=['the characters of the notation are at most the largest but one of the target character type (or U+FFFF, which is rejected)'],
    note='CharClass::parse carries a contract over an inductive grammar of the notation: on success exactly the written items up to the closing bracket, on rejection an item that is not well-formed; all obligations discharged for every text. std::sort is shown to be called on ranges already in order. Stream::get is used by its contract (proved under P06). Trusted: clang AST, translation, STL model, solvers.')
PROPS['P10'] = dict(
    units=[dict(name='paths', spec='paths')],
    harness=[dict(src='paths.cpp', core=True, budget=(12, 300), bound='all pairs of paths of up to 2 steps over 12 steps, all pairs of chains of up to 2 decisions over 12 decisions, 81 pairs of names, plus seeded random paths and chains of up to 7 elements and classes of up to 4 ranges',
                  covers='failing-input search for every contract of the unit; hashing of character classes (bounded only), copying and moving of names')],
    assumptions=['std::wstring::compare orders texts by the first differing character, shorter prefix first, and std::hash<std::wstring> is a function of the text'],
    note='Every comparison, equality, hash and path operation carries a contract over an order defined in the logic; that this order is strict, total and transitive, that equality is element-wise and that superior and inferior exclude each other are proved lemmas. CharClass::hash is only checked by the bounded harness. Trusted: clang AST, translation, STL model (std::wstring::compare, std::hash), solvers.')
PROPS['P11'] = dict(
    units=[dict(name='marker', spec='runner', args=['marker'])],
    harness=[dict(src='marker.cpp', core=[], budget=(8, 240), bound='every word with one or two bits set or cleared, all 32768 rule ids, boundary offsets, plus 300000 (thorough up to 50 million) seeded random words', covers='failing-input search for every contract of the unit')],
    note='Every member of CSTMarker and SVCapsule carries a contract over all 64-bit words, and encode/decode is a proved lemma over the same layout. Trusted: clang AST, translation (shifts and masks by constants become div/mod), solvers.')
PROPS['P16'] = dict(
    units=[dict(name='layout', spec='runner', args=['layout'])],
    harness=[dict(src='layout.cpp', core=[], budget=(10, 200), bound='bank counts 1 to 33 and up to 2097152, bank sizes around powers of two and page multiples up to 2^38, plus seeded random ones; mmap, ftruncate, shm_open and semaphores are recording stand-ins', covers='failing-input search for every contract of the unit; the addresses acquire_bank of the three stages hand out')],
    assumptions=['bank size and bank count are positive and the sizes fit the address space', 'sizeof(WindowBankEntry) is a positive constant'],
    note='Window sizes, mapping and unmapping carry contracts for every bank size and count; disjointness of banks is a proved lemma. Trusted: clang AST, translation, contracts assumed for mmap, munmap, ftruncate, shm_open, solvers.')

PROPS['P12'] = dict(
    units=[dict(name='stage2', spec='stage', args=['stage2']), dict(name='reduction_lemmas', mlw='reduction.mlw')],
    harness=[dict(src='reduction.cpp', core=[], args=['--chunks-only'], budget=(12, 300), bound='every trace of up to 5 (thorough 6) rule instances and every way of cutting it, then seeded random traces of up to 30 (thorough 60) instances with random cuts',
                  covers='failing-input search for every contract of the unit; the reduction counter')],
    assumptions=['the action is a function of (id, begin, end, values); its result is one 64-bit word', 'the words of a chunk are begin and end markers of rules 1..32767 followed by a zero word or the end of the bank (P11, P14)'],
    note='reduce_bank and the push and reduce operations carry contracts relating the tag/value stacks to a token sequence, for every chunk and bank size; that the token steps are the serial reduction of a syntax tree is proved as a lemma (tree_meaning). Trusted: clang AST, translation, STL model, solvers.')
PROPS['P13'] = dict(
    units=[dict(name='stage3', spec='stage', args=['stage3']), dict(name='reduction_lemmas', mlw='reduction.mlw')],
    harness=[dict(src='reduction.cpp', core=[], budget=(15, 300), bound='every trace of up to 5 (thorough 6) rule instances and every way of cutting it, then seeded random traces of up to 30 (thorough 60) instances with random cuts; banks placed in random order',
                  covers='failing-input search for every contract of the unit; the reduction counter; release of every bank')],
    assumptions=['acquire_bank of stage 3 delivers the published chunks in the order they were written, each once, then NULL (property P14)', 'each published partial result satisfies the postcondition of reduce_bank (P12)', 'the action is a function of (id, begin, end, values)'],
    note='Stage3Runner::reduce carries a contract over every number of chunks and every trace; that independent chunk reduction followed by combination equals the serial pass (same calls as multisets, same value) for every cut is a proved lemma. delete is translated to nothing; double deletion is only watched by the sanitizer in the harness. Trusted: clang AST, translation, STL model, solvers.')

PROPS['P14'] = dict(
    units=[dict(name='banks_stage1', spec='banks', args=['stage1']), dict(name='banks_stage2', spec='banks', args=['stage2']), dict(name='banks_stage3', spec='banks', args=['stage3']),
           dict(name='banks_reduce', spec='stage', args=['stage3'], thorough_only=True)],
    harness=[dict(src='banks.cpp', core=[], budget=(15, 300), bound='1 to 4 banks of 1 to 5 words, 1 to 4 workers, traces of up to 8 (thorough 12) rule instances, seeded random schedules in five modes (uniform, sticky, starved stage, bursts) with spurious compare-exchange failures',
                  covers='failing-schedule search for every contract of the three units, the contents of the banks, dry and captured runs, termination of stages 1 and 3')],
    assumptions=['atomic operations are sequentially consistent moves of the shared state; one move at a time', 'one thread of stage 1 and one of stage 3 (the runners spawn one each); every bank is free (zeroed shared memory) when they start',
                 'the generated parser calls feed_callback and nothing else of the runner', 'reduce of stage 3 acquires and releases in turn and reads a bank only while it holds it (obligations of P13)', 'termination of the waiting loops is not claimed'],
    note='Rely/guarantee: acquire, release, feed, reset, exit signal and thread bodies of the three runners carry contracts over a shared ghost state; each atomic operation must be a move its stage may make, other stages may move arbitrarily often in between. That every guarantee lies inside every other rely and keeps the invariant is proved, for every number of banks, workers and every interleaving. Partial correctness only. Trusted: clang AST, translation, sequential consistency of the atomics, solvers.')

SETS = [dict(name='sets', mlw='sets.mlw'), dict(name='subsets', mlw='subsets.mlw')]
PROPS['P03'] = dict(
    units=[dict(name='regex_char', spec='regex', args=['char']), dict(name='ccparse', spec='ccparse', args=['char'])],
    harness=[dict(src='automata.cpp', core=['CharClass.cpp', 'Util.cpp'], args=['--mode=nfa'], budget=(10, 300), bound='all patterns of up to two marked units over a, b and seeded random patterns (nesting up to 3), on all strings of up to 5 (thorough 6) characters over two letters or 3 to 4 over three; escapes and rejected escapes',
                  covers='failing-input search for every contract of the unit')],
    assumptions=['patterns are written in characters below the largest one of the character type (others are narrowed before they reach the automaton)',
                 'an empty class [] stands for an empty move', 'the stack is deep enough for the nesting of the pattern'],
    note='The pattern reader (parse, parse_selection, parse_unit, the group constructor) and every automaton operation it uses (concat, select, add_state, add_transition_to/from, offset, rebase_transitions) carry contracts: on normal return the text read is derivable in the notation (inductive relation over text positions: escapes, classes, wildcard, groups, marks, bars, juxtaposition) and the automaton accepts exactly its language, for every pattern, nesting and word; a rejection means an unsupported escape or a class that is not well-formed. The language of an automaton is shown to be the one the contracts of run() (P04) speak of. Termination included. CharClass and Stream operations are used by their contracts (proved under P01, P06); CharClass::parse is proved here too. Trusted: clang AST, translation, STL model, solvers.')
PROPS['P04'] = dict(
    units=[dict(name='dfa_det', spec='dfa', args=['p04'])] + SETS,
    harness=[dict(src='automata.cpp', core=['CharClass.cpp', 'Util.cpp'], args=['--mode=det'], budget=(10, 300), bound='automata of all patterns of up to two marked units over a, b, of seeded random patterns (nesting up to 3) and seeded random NFAs of up to 6 states (cycles of empty moves included), on all strings of up to 5 (thorough 6) characters over two letters or 3 to 4 over three',
                  covers='failing-input search for every contract of the unit')],
    assumptions=['the NFA has at least one state, its transitions lead to existing states and its labels are in canonical form (postconditions of the pattern reader, P03, and of the class operations, P01)', 'strings do not contain the largest character of the character type'],
    note='Empty-move closure (with termination), departure sets, subset construction (with termination), the DFA constructor without minimisation and running both kinds of automaton carry contracts; that the constructed DFA accepts exactly the words of the NFA and that at most one transition applies are proved for every NFA and word. CharClass operations are used by their contracts (proved under P01). Trusted: clang AST, translation, STL model (std::set, std::vector, std::sort as some permutation), solvers.')
PROPS['P05'] = dict(
    units=[dict(name='dfa_min', spec='dfa', args=['p05']), dict(name='lookahead_min', spec='ldfa')],
    harness=[dict(src='automata.cpp', core=['CharClass.cpp', 'Util.cpp'], args=['--mode=min'], budget=(10, 300), bound='automata of all patterns of up to two marked units over a, b, of seeded random patterns (nesting up to 3) and seeded random NFAs of up to 6 states, on all strings of up to 5 (thorough 6) characters over two letters or 3 to 4 over three',
                  covers='failing-input search for every contract of the first unit'),
             dict(src='ldfa.cpp', core=True, budget=(8, 200), bound='seeded random lookahead tables of up to 6 states, 3 alternatives and 3 letters, on all strings of up to 5 (thorough 6) of them', covers='failing-input search for every contract of the second unit')],
    assumptions=['std::unordered_map finds only entries whose key compares equal by operator== (that equal keys are found is not needed)'],
    note='State equality, redirecting, dropping and renumbering and minimise() itself carry contracts; that minimising leaves the accepted words unchanged, keeps every transition inside and determinism are proved for every DFA and word, and likewise for lookahead automata and the alternative they choose. Trusted: clang AST, translation, STL model, solvers.')

PROPS['P15'] = dict(
    units=[dict(name='expand', spec='catn')],
    harness=[dict(src='catn.cpp', core=True, budget=(10, 200), bound='seeded random rules (nesting up to 2, literals of up to 3 characters, patterns) and hand-made networks of up to 7 nodes; strings and rule uses of up to 4 (thorough 5) steps', covers='failing-input search for every contract of the unit; the generated strings and rule uses of both networks, the node found under each index')],
    assumptions=['a literal node is entered by at most one transition (the rule reader puts a white-space node before every literal)', 'node 0 is blank', 'literal characters lie below the largest character of the type'],
    note='import_atn_node and the functions it uses carry contracts: the character network is an exact structural copy (one node per blank or rule use, one per literal character, the pattern automaton with the accepting state mapped to the node, a blank loop for white space), for every network, cyclic ones included; transitions keep order and ranking, and the index map gives the node after each source node. The language reading of this structural relation is checked in the harness, bounded. Trusted: clang AST, translation, STL model, solvers.')

PROPS['P07'] = dict(
    units=[dict(name='grammar', spec='grammar')],
    harness=[dict(src='grammar.cpp', core=True, budget=(10, 200), bound='seeded random grammar files (up to 6 items per file, nesting of includes up to 3, comments and blanks everywhere, duplicate and undefined names), cut and damaged copies of them, and grammars of 32767 and 32768 rules; names of up to 5 characters', covers='failing-input search for every contract of the unit; relative include paths; simplification keeps the numbering')],
    assumptions=['std::wifstream delivers the contents of the named file, which does not change during the run (a missing file reads as empty)', 'chains of includes are finite (a file that includes itself ends with an error once no file can be opened)', 'std::unordered_map keeps one entry per key', 'a machine built from text carries the id it was given (ATNMachine constructor, contract assumed)', 'names are letters, digits and underscores by iswalpha/iswalnum'],
    note='Identifier::parse, the file reader Grammar::parse (recursive over includes), the move constructor, name and id lookups, the rule listing and both checks of rule uses carry contracts over all texts: ids are consecutive in the order of an inductive reading of the files, at most 32767, each name has one network carrying its id, the first rule is the root. Termination of the reading loops is proved, of the recursion over includes not. The network built from a rule body is a trusted contract here (P08). Trusted: clang AST, translation, STL model, solvers.')

PROPS['P08'] = dict(
    units=[dict(name='simplify', spec='atn')],
    harness=[dict(src='atn.cpp', core=True, budget=(12, 250), bound='seeded random rule texts (nesting up to 3, comments and blanks everywhere) and hand-made networks of up to 7 nodes; terminals and rule uses in sequences of up to 3 (thorough 4); damaged texts', covers='construction from rule text (bounded only): sequences generated, order of preference, ids; failing-input search for every contract of the unit')],
    assumptions=['a network holds fewer than 2^31 nodes and edges'],
    note='drop_passthrough_nodes, filter_nodes and count_incoming_edges carry contracts for all networks whose edges stay inside: before and after, the same sequences of terminals, rule uses and white space are spelled by walks from the first to the last node, and any two of them stand in the same order of preference (compared where the walks part). The construction from rule text (parse_atom, parse_sequence, parse_selection) is checked in the harness only, bounded. Trusted: clang AST, translation, STL model, solvers.')

PROPS['P09'] = dict(
    units=[dict(name='groups', spec='look', args=['groups']), dict(name='follow', spec='look', args=['follow']), dict(name='decide', spec='look', args=['decide'])],
    harness=[dict(src='lookahead.cpp', core=True, budget=(12, 250), bound='seeded random grammars of up to 4 rules, plain and simplified, whose character networks stay below 60 characters, every decision point, all inputs up to length 5 over the characters used; simulated stacks up to depth 9, chains up to length 60', covers='closures, departures, groups, colours and run() against a direct simulation of the character networks from every alternative; construction ends (no refusal without recursion through the left)')],
    assumptions=['the destinations of the character networks lie inside them and every rule used has a network (P07, P15), and the moves leaving a decision point are without characters (rule networks have a white-space node before every literal; asserted by the code)',
                 'the functions that follow the networks are functions of their arguments (they are const members)',
                 'the recursion through closures, networks and states ends (a repeated path is refused with an error): checked in the harness only', 'std::set<CATNClosureElement> holds one element for each path and alternative (the order is proved a strict weak order under P10)'],
    note='Proved for all networks: build_closure and build_root_closure hold everything reached without reading (entering uses of machines, leaving a machine behind its use or behind any use of the outermost one) and nothing else; the departures collected from a closure are exactly the readings possible from it; the groups are cut at the borders of the character classes, each character is in one group, a group holds continuations by its character, none outranking another, and each continuation is represented unless outranked; the automaton, before and after minimising, picks k for a word only if, following all alternatives at once, a character is reached at which k can continue and every other alternative cannot or is outranked, no continuation having been forgotten on the way unless outranked and none invented; and it picks k when nothing else remains. Closure elements are compared by path and alternative, not by rank, so two chains of choices reaching the same place are represented by one of them (design of the code, stated in the contract). Partial correctness. Trusted: clang AST, translation, STL model, solvers.')

NOT_APPLICABLE = {
    'P17': 'The generator (CodeGenEM64T.cpp) emits x86 through asmjit; the asmjit sources are an empty submodule here, so the code neither compiles nor has a readable semantics for the emitted calls, and no contract verifier in reach covers the emitted machine code.',
    'P18': 'The bindings are a shared object (PyCentaurus.cpp) that needs asmjit, which is absent, plus Python ctypes glue with fork-style workers; it can be neither built nor extracted here, and no deductive verifier for that Python code is installed.',
}
