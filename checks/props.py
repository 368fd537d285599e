# The properties, in one place: properties.jsonl and MANIFEST.json are generated from here (gen.py).
# id: (title, statement, over, quantifier text, why_tests_cant, files, [(mechanism, where)], observe_at)
P = {}
def p(i, title, st, over, q, why, files, mech, obs):
    P[i] = dict(title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, obs=obs)

p('C01', 'A search reports exactly the leftmost, highest-priority matches of a pattern',
  'For every pattern and every input, searching the whole input reports exactly the non-overlapping matches that scanning from left to right gives, where the match at a start position is the one that Perl-style priority prefers (earlier alternatives first, greedy repetitions longest first, non-greedy ones shortest first). No such match is missed, no other hit is reported and every start and end offset is exact. (Patterns in which a subpattern repeated without limit can match the empty string and prefers to are outside the statement, as are patterns that can match empty as a whole, which are refused.)',
  ['inputs', 'programs'], 'for every accepted pattern, encoding, determinization depth and input text',
  'The unit tests sample a few thousand pattern/text pairs, most of which exercise one construct; the interaction of alternation priority, greedy/non-greedy repetition, pattern rewriting, NFA construction, determinization, jump tables and the start filter is unbounded. Random differential search found mismatches on the base tree that all 5625 tests passed over.',
  ['src/lib/parser.cpp', 'src/lib/rewriter.cpp', 'src/lib/nfabuilder.cpp', 'src/lib/nfaoptimizer.cpp', 'src/lib/compiler.cpp', 'src/lib/codegen.cpp', 'src/lib/vm.cpp', 'src/lib/utility.cpp'],
  [('priority-ordered thread lists', 'src/lib/vm.cpp'), ('ordered out-edges in the NFA', 'src/lib/nfabuilder.cpp'), ('semantics-preserving tree rewriting', 'src/lib/rewriter.cpp'), ('start filter on byte pairs', 'src/lib/utility.cpp bestPair')],
  ['lg_search', 'lg_closeout_search'])

p('C02', 'Patterns searched together do not affect each other',
  'When several patterns are searched simultaneously, the hits reported for each pattern are exactly those reported when that pattern is searched alone, whatever the other patterns, their order, encodings, options, duplicates or shared prefixes. Each hit carries the index of the pattern it belongs to.',
  ['inputs', 'programs'], 'for every set of accepted patterns in every order, every input and determinization depth',
  'Tests use a handful of fixed keyword sets; merging of automata and label propagation depend on how the patterns in a set happen to share prefixes, states and labels.',
  ['src/lib/nfaoptimizer.cpp', 'src/lib/fsmthingy.cpp', 'src/lib/vm.cpp', 'src/lib/compiler.cpp'],
  [('merging a pattern NFA into the FSM', 'src/lib/nfaoptimizer.cpp mergeIntoFSM'), ('label propagation to the earliest distinguishing state', 'src/lib/nfaoptimizer.cpp propagateMatchLabels'), ('per-label match ends and liveness', 'src/lib/vm.cpp')],
  ['lg_search', 'lg_closeout_search'])

p('C03', 'Where a stream is cut into buffers does not change the hits',
  'Searching a stream in consecutive buffers, cut anywhere (inside matches, inside multi-byte characters, single bytes, empty buffers) and followed by closing the search, reports the same hits with the same offsets as searching it in one buffer, at any starting offset. Earlier buffers may be freed as soon as the search call returns.',
  ['inputs', 'histories'], 'for every pattern set, every input, every partition into buffers and every starting offset',
  'Tests split a few inputs at a few places; the start filter looks ahead across the end of a buffer and partial matches are carried between calls, so faults need specific cut points relative to match and filter positions.',
  ['src/lib/vm.cpp', 'src/lib/lightgrep_c_api.cpp'],
  [('threads kept between calls', 'src/lib/vm.cpp search'), ('filter applied only where its bytes are in the buffer', 'src/lib/vm.cpp search'), ('closeout of pending matches', 'src/lib/vm.cpp closeOut')],
  ['lg_search', 'lg_closeout_search'])

p('C04', 'The determinization depth changes no hit',
  'A program compiled with any determinization depth reports exactly the same hits on every input as one compiled from the same patterns with any other depth. A pattern set that compiles at one depth compiles at every depth.',
  ['inputs', 'configurations'], 'for every pattern set, every input and every pair of depths',
  'Tests use one or two depths; subset construction with priorities, character-class splitting and jump tables only interact at particular depths and branch shapes.',
  ['src/lib/nfaoptimizer.cpp', 'src/lib/compiler.cpp', 'src/lib/fsmthingy.cpp'],
  [('bounded-depth subset construction that keeps priorities', 'src/lib/nfaoptimizer.cpp subsetDFA'), ('jump tables', 'src/lib/compiler.cpp createJumpTable')],
  ['lg_create_program', 'lg_search'])

p('C05', 'A program written out and read back behaves identically',
  'A program serialized to a buffer of its reported size and read back searches every input with the same hits and return values, has the same pattern information, and serializes to the same bytes again. A buffer that ends before the program does is refused, without being read past its end.',
  ['inputs', 'programs'], 'for every pattern set, depth, input and truncation point',
  'The tests round-trip a few programs and compare structures; agreement of behaviour over all instruction kinds, tables, filters and pattern maps and refusal at every truncation point are universally quantified.',
  ['src/lib/program.cpp', 'src/lib/pattern_map.cpp', 'src/lib/lightgrep_c_api.cpp'],
  [('marshalling of code, filter and pattern map', 'src/lib/program.cpp, src/lib/lightgrep_c_api.cpp'), ('bounds checks while reading', 'src/lib/lightgrep_c_api.cpp lg_read_program')],
  ['lg_write_program', 'lg_read_program', 'lg_program_size'])

p('C06', 'Hits are well formed, and those of one pattern are ordered and disjoint',
  'Every hit that is ever delivered is non-empty, lies within the data given so far, and has a valid pattern index. The hits delivered for one pattern have increasing starts and never overlap, in every stream, however it is cut.',
  ['inputs', 'histories'], 'for every pattern set, stream, cutting and starting offset, at every delivery',
  'Tests compare final hit lists on fixed inputs; this is an invariant over every delivery in every stream, including large offsets and pending matches emitted late.',
  ['src/lib/vm.cpp'],
  [('match ends per label', 'src/lib/vm.cpp MatchEnds'), ('killing threads that overlap an emitted match', 'src/lib/vm.cpp')],
  ['hit callback of lg_search, lg_search_resolve, lg_closeout_search'])

p('C07', 'The offset a search returns bounds later hits; resolving finishes what was begun',
  'The offset returned by a search call lies between the starting offset and the end of the data seen and never goes back, no hit delivered later starts before it, and it is not older than the oldest position from which a match could still be open. After searching a beginning of the data, resolving with the rest and closing yields exactly the hits of the whole data that begin in that beginning.',
  ['inputs', 'histories'], 'for every pattern set, input, cut point and sequence of calls',
  'Tests check the returned offset in a few cases; a caller uses it to discard data, so one wrong value on any history loses the text of hits or hits themselves.',
  ['src/lib/vm.cpp', 'src/lib/lightgrep_c_api.cpp'],
  [('first active start', 'src/lib/vm.cpp search'), ('search without starting new threads', 'src/lib/vm.cpp searchResolve')],
  ['lg_search', 'lg_search_resolve'])

p('C08', 'An anchored search reports exactly the matches at the first byte',
  'The starts-with search reports, for each pattern, the match the priority rules choose at the first byte of the buffer if there is one, and nothing otherwise, for buffers of any length and whatever the context was used for before.',
  ['inputs', 'programs'], 'for every pattern set and buffer, including very short ones',
  'Only a few fixed cases are tested; the start filter and context state make the result depend on buffer length, filter offset and earlier use.',
  ['src/lib/vm.cpp', 'src/lib/lightgrep_c_api.cpp'],
  [('anchored execution', 'src/lib/vm.cpp startsWith')],
  ['lg_starts_with'])

p('C09', 'Contexts are independent and a reset forgets everything',
  'A context after a reset behaves exactly as a newly created one, whatever was searched or abandoned before, and the starts-with search also begins afresh. Interleaving searches in several contexts of one program gives each the hits it would have alone.',
  ['inputs', 'histories'], 'for every history of search, resolve, closeout, reset and starts-with calls over several contexts',
  'Tests reset a context after one or two fixed searches; leftover threads, locks, match ends or liveness marks show only after particular unfinished searches.',
  ['src/lib/vm.cpp', 'src/lib/lightgrep_c_api.cpp'],
  [('reset of all search state', 'src/lib/vm.cpp reset')],
  ['lg_reset_context', 'lg_create_context'])

p('C18', 'Compiling leaves the pattern collection usable and earlier programs unchanged',
  'Patterns may be added and programs compiled in any order: each program searches for exactly the patterns added before it was compiled, as a fresh compilation of them would, and is unaffected by patterns added or programs compiled later or by destroying the collection. Patterns are numbered consecutively in the order in which they were accepted, refused ones leave no trace, and the recorded pattern text, encoding and user index are those given.',
  ['histories', 'programs'], 'for every sequence of adding (valid and invalid) patterns and compiling programs',
  'The tests compile each collection once, at the end; the statement quantifies over interleavings of additions, refusals and compilations.',
  ['src/lib/fsmthingy.cpp', 'src/lib/lightgrep_c_api.cpp', 'src/lib/pattern_map.cpp', 'src/lib/nfaoptimizer.cpp'],
  [('finalization on a copy of the graph', 'src/lib/fsmthingy.cpp finalizeGraph'), ('pattern map', 'src/lib/pattern_map.cpp')],
  ['lg_add_pattern', 'lg_create_program', 'lg_prog_pattern_info', 'lg_fsm_pattern_info'])

p('C11', 'Character classes and properties match exactly their members',
  'A bracket expression, shorthand class or Unicode property in a pattern matches exactly the characters that its definition gives: ranges, lists, nested classes, the set operators (intersection, difference, symmetric difference, union), complements, shorthand classes and Unicode properties as defined by the Unicode character database; and in byte-oriented mode exactly the listed bytes. Every member that the encoding can represent is matched by its encoding and no non-member is.',
  ['inputs', 'programs'], 'for every class expression, every encoding and every one of the 1,112,064 Unicode scalar values',
  'The tests compare parse trees and a few sets; membership of every code point in every nesting of operators, in every encoding, is not sampled.',
  ['src/lib/parser.cpp', 'src/lib/icuutil.cpp', 'src/lib/nfabuilder.cpp', 'src/lib/utility.cpp'],
  [('set algebra of bracket expressions', 'src/lib/parser.cpp'), ('Unicode properties', 'src/lib/icuutil.cpp'), ('encoding a set as byte-range paths', 'src/lib/nfabuilder.cpp, src/lib/utfbase.h')],
  ['lg_parse_pattern', 'lg_search'])

p('C12', 'Case-insensitive and Unicode modes apply to exactly the text they cover',
  'With case-insensitivity on, a character matches exactly the characters with the same full case folding (within ASCII when Unicode mode is off), and with it off exactly itself. Inline switches (?i) (?-i) (?a) (?-a), alone or combined, (where a is ASCII mode, the opposite of Unicode mode) turn the modes on and off from where they stand to the end of the enclosing group, and nothing else changes them; the pattern options give the initial modes.',
  ['inputs', 'programs'], 'for every character and every placement of switches and groups',
  'Tests sample some letters and placements; exotic foldings (K/Kelvin, long s, titlecase digraphs) and nestings of switches are open-ended.',
  ['src/lib/parser.cpp', 'src/lib/icuutil.cpp', 'src/lib/parseutil.cpp'],
  [('case closure', 'src/lib/icuutil.cpp caseDesensitize'), ('switch scopes', 'src/lib/parser.cpp, src/lib/re_grammar.ypp')],
  ['lg_parse_pattern', 'lg_search'])

p('C13', 'Literal text, escapes and fixed strings match exactly the text they denote',
  'A fixed-string pattern matches exactly its own characters whatever they are. In a regular expression an escaped metacharacter, an octal, hexadecimal, Unicode or named character escape and a control escape match exactly the character they denote, \\z escapes exactly one byte, ordinary characters match themselves, and the positions in which metacharacters are literal (such as a brace that begins no repetition) are literal.',
  ['inputs', 'programs'], 'for every string of Unicode characters, every spelling and every encoding',
  'Tests enumerate single escapes; combinations and neighbours (digit after octal, brace after atom, multi-byte characters in fixed strings) are not.',
  ['src/lib/re_grammar.ypp', 'src/lib/parser.cpp', 'src/lib/parseutil.cpp'],
  [('lexing of escapes', 'src/lib/re_grammar.ypp'), ('literal mode', 'src/lib/parser.cpp')],
  ['lg_parse_pattern', 'lg_search'])

p('C10', 'An encoding name selects that encoding exactly',
  'Every encoding name and alias the library lists, in any letter case, with byte transformations appended, selects that encoding: a pattern is searched for as exactly the bytes that the encoding gives its characters, a character class matches exactly the encodings of its members, and a pattern with no representation in the encoding is refused rather than searched as something else.',
  ['inputs', 'configurations'], 'for every listed encoding and alias, chain of transformations and every character',
  'There are 185 encodings and over a thousand names, each with up to a million characters; tests sample a few in a few encodings.',
  ['src/lib/encoderfactory.cpp', 'src/lib/icuencoder.cpp', 'src/lib/icuconverter.cpp', 'src/lib/encoderbase.cpp', 'src/lib/chain.cpp', 'src/lib/oceencoder.cpp', 'src/lib/utf8.cpp', 'src/lib/nfabuilder.cpp', 'src/enc/encodings.cpp'],
  [('chains of transformations', 'src/lib/chain.cpp, src/lib/encoderfactory.cpp'), ('byte-range paths of a set of characters', 'src/lib/encoderbase.cpp, src/lib/utfbase.cpp'), ('table of encoding names', 'src/enc/encodings.cpp')],
  ['lg_add_pattern', 'lg_search', 'lg_get_encoding_id'])

p('C14', 'Decoding a window around a hit is faithful and picks the best context',
  'Decoding a hit with context tiles the bytes from the beginning of the leading to the end of the trailing context with elements at increasing offsets, each either a character that its bytes encode or a bad value for one byte. Decoding restarts at the hit, the hit range covers exactly the elements that begin in it, no more context is given than asked for and none is left out that the buffer has, the leading context has the longest run of valid characters next to the hit and then the fewest bad values, and the number of bad values and the UTF-8 form with replacements agree with the elements. Nothing outside the buffer is read, for any window size.',
  ['inputs'], 'for every buffer, hit position, context size, data offset and encoding chain',
  'Tests have ten windows; malformed bytes around the hit, hits inside characters, windows at buffer ends and large window sizes are combinatorial.',
  ['src/lib/lightgrep_c_util.cpp', 'include/decoders', 'src/lib/icuconverter.cpp'],
  [('window decoding', 'src/lib/lightgrep_c_util.cpp decode'), ('decoder chain', 'src/lib/decoders/decoderfactory.cpp')],
  ['lg_read_window', 'lg_hit_context'])

p('C15', 'What a pattern finds decodes back to what it says',
  'Decoding a hit of a literal pattern through the encoding chain recorded for that pattern gives back exactly the text of the pattern, in every encoding and chain of byte transformations, and the surrounding context decodes to the surrounding characters wherever the encoding determines them.',
  ['inputs', 'configurations'], 'for every literal, every encoding chain and every text in that encoding',
  'Encoders and decoders are separate code for each encoding and transformation, assembled in opposite orders; tests cover few pairs.',
  ['src/lib/encoderfactory.cpp', 'src/lib/decoders/decoderfactory.cpp', 'src/lib/decoders/ocedecoder.cpp', 'src/lib/oceencoder.cpp', 'include/decoders'],
  [('encoder chain', 'src/lib/encoderfactory.cpp'), ('decoder chain in reverse', 'src/lib/decoders/decoderfactory.cpp')],
  ['lg_search', 'lg_hit_context', 'lg_prog_pattern_info'])

p('C16', 'No pattern, encoding name, list or input makes the library misbehave in memory',
  'Whatever bytes are given as pattern, pattern list, encoding name, search input or text to decode, valid or not, and in whatever order handles are used and destroyed, the library never reads or writes outside the memory it was given or owns, uses no freed or uninitialised memory, executes no undefined operation, leaks nothing once the handles are destroyed, and returns. Refused input is refused by a return value and error object.',
  ['inputs', 'histories'], 'for every byte string in every role and every order of calls the interface allows',
  'Tests give mostly well-formed input and run without sanitizers; memory errors need malformed or truncated input at particular places, and many leave no visible trace.',
  ['src/lib/re_grammar.ypp', 'src/lib/parser.cpp', 'src/lib/parseutil.cpp', 'include/unicode.h', 'src/lib/lightgrep_c_api.cpp', 'src/lib/lightgrep_c_util.cpp', 'src/lib/vm.cpp', 'src/lib/rewriter.cpp'],
  [('exceptions trapped at the C interface', 'include/c_api_util.h'), ('lexer bounds', 'src/lib/re_grammar.ypp yylex'), ('UTF-8 decoding of patterns', 'include/unicode.h')],
  ['all lg_ functions'])

p('C17', 'Patterns are refused exactly when they should be, and reported accurately',
  'A pattern is accepted by the parser exactly when it is well formed and uses only supported constructs, whether given as a string or a slice, and added exactly when it was parsed, cannot match the empty string, and the encoding chain is valid and can represent it. A refusal returns the documented value, changes nothing else, and fills the error with a message, the pattern and (for adding) the encoding chain; success leaves the error alone; a null error pointer changes no result. Adding a list has the effect of adding each of its patterns in each of its encodings with its options individually, with the line number as user index, reports one error per failure with its line and source in order, and returns failure exactly if there was one.',
  ['inputs', 'histories'], 'for every pattern, encoding, list and history of successes and failures',
  'Tests check some accepted and refused patterns and two small lists; acceptance is a language-membership question, and the error paths combine freely.',
  ['src/lib/lightgrep_c_api.cpp', 'src/lib/re_grammar.ypp', 'src/lib/parser.cpp', 'src/lib/nfabuilder.cpp', 'src/lib/c_api_util.cpp', 'src/lib/encoderfactory.cpp'],
  [('grammar', 'src/lib/re_grammar.ypp'), ('list parsing and error chain', 'src/lib/lightgrep_c_api.cpp addPatternList'), ('errors', 'src/lib/c_api_util.cpp makeError')],
  ['lg_parse_pattern', 'lg_parse_pattern_slice', 'lg_add_pattern', 'lg_add_pattern_list', 'LG_Error'])

p('C19', 'Threads that share only a program do not disturb each other',
  'A program, once created, may be searched by any number of threads at the same time, each with contexts of its own, and threads that each use handles of their own (patterns, collections, programs, contexts, decoders) need no coordination. There is no data race, and each operation gives exactly the result it gives when one thread does everything by itself, including the first uses in a process.',
  ['schedules', 'histories'], 'for every set of threads, sequence of operations in each and interleaving of them',
  'No test starts a second thread. Programs share mutable tables by reference counts and encodings, converters and Unicode data are loaded lazily by static state; a race shows only in particular interleavings and mostly leaves no visible trace.',
  ['src/lib/vm.cpp', 'src/lib/lightgrep_c_api.cpp', 'src/lib/program.cpp', 'src/lib/icuconverter.cpp', 'src/lib/encoderfactory.cpp', 'src/lib/decoders/decoderfactory.cpp', 'src/lib/lightgrep_c_util.cpp', 'src/lib/icuutil.cpp'],
  [('contexts hold all search state, programs are read only', 'src/lib/vm.cpp, src/lib/program.cpp'), ('static tables', 'src/lib/encoderfactory.cpp, src/lib/icuutil.cpp, src/lib/lightgrep_c_util.cpp')],
  ['lg_search', 'lg_create_context', 'lg_create_program', 'lg_parse_pattern', 'lg_hit_context', 'lg_get_encoding_id'])

p('C20', 'Every sample the sample command prints is a match of the patterns',
  'The sample command ends for every set of accepted patterns, sample limit and loop limit, and prints only texts that match one of the patterns in the chosen encoding, each once; at least one if any is asked for and loops are allowed.',
  ['inputs', 'configurations'], 'for every pattern set, encoding, determinization depth, sample limit and loop limit',
  'One test of the generator exists, on fixed graphs; the generator walks the graph at random with backtracking, so dead ends, loops and limits meet only in particular graphs.',
  ['src/lib/matchgen.cpp', 'src/cmd/main.cpp', 'src/lib/fsmthingy.cpp'],
  [('random walk with backtracking', 'src/lib/matchgen.cpp'), ('the graph that is walked', 'src/cmd/main.cpp writeSampleMatches')],
  ['lightgrep -c sample'])

p('C21', 'The tool prints exactly the hits in exactly the inputs it was given',
  'A search with the command line tool prints, for every input named by an argument, a list file, standard input or a recursively searched directory, in order, one line for each hit that the library reports for that input as a whole, with its offsets, user index, pattern and encoding chain, preceded by the path of the input when paths are asked for or several inputs could be meant. Block size, memory mapping, the place and form of options and the choice of output file change nothing; empty inputs have no hits; the number of bytes and hits reported are right; the exit status is zero exactly if the search was carried out.',
  ['inputs', 'configurations'], 'for every pattern source, set of inputs, block size and combination of options',
  'The command line tool has no end-to-end test; only option parsing and output formatting helpers are tested. Blocks, mapped files, lists, standard input and recursion multiply.',
  ['src/cmd/main.cpp', 'src/cmd/options.cpp', 'src/cmd/optparser.cpp', 'src/cmd/reader.cpp', 'src/cmd/searchcontroller.cpp', 'src/cmd/hitwriter.cpp', 'src/cmd/lg_app.cpp'],
  [('reading ahead in blocks', 'src/cmd/reader.cpp, src/cmd/searchcontroller.cpp'), ('choice of inputs and paths', 'src/cmd/options.cpp, src/cmd/main.cpp'), ('output', 'src/cmd/hitwriter.cpp')],
  ['lightgrep -c search'])

p('C22', 'Context lines are exactly the lines asked for around each hit',
  'With N lines of context before a hit, its context begins after the (N+1)st line feed before the hit (or at the beginning of the input), with N lines after, it ends before the (N+1)st line feed at or after the end of the hit, less a preceding carriage return (or at the end of the input); without a request for a side it ends at the hit. The context is decoded with the encoding of the pattern, printed with tabs and line ends escaped, preceded by the offset at which it begins, and separated from the next by the group separator.',
  ['inputs', 'configurations'], 'for every input, hit, numbers of lines and encoding',
  'Tests try the two line-searching helpers on a few strings; hits at the edges of lines and inputs, blank lines, CRLF, huge numbers of lines and hits completed at the end of the input are not covered.',
  ['src/cmd/hitwriter.cpp', 'src/cmd/searchcontroller.cpp', 'src/cmd/options.cpp'],
  [('finding lines', 'src/cmd/hitwriter.cpp find_leading_context, find_trailing_context'), ('data available to hits', 'src/cmd/searchcontroller.cpp')],
  ['lightgrep -A -B -C'])

p('C23', 'The histogram counts every hit under its own text',
  'The histogram file holds one line for each distinct combination of hit text, user index and pattern, with the number of hits that have it, most frequent first and then by user index and text, with control characters escaped. The counts add up to the hits over all inputs and do not depend on block size or memory mapping.',
  ['inputs', 'configurations'], 'for every set of inputs, patterns and block size',
  'Tests feed the counting helpers directly; the text of a hit that begins in an earlier block or is completed at the end of the input was read from the wrong memory.',
  ['src/cmd/hitwriter.cpp', 'src/cmd/searchcontroller.cpp', 'src/cmd/main.cpp'],
  [('counting', 'src/cmd/hitwriter.cpp HistogramInfo'), ('data available to hits', 'src/cmd/searchcontroller.cpp searchFile')],
  ['lightgrep --histogram-file'])

p('C24', 'Validation and program files agree with searching by the patterns',
  'Validating a set of patterns prints one line for each refused pattern of each source, with its line number, text, encoding and reason, and fails exactly if there is one; searching and compiling print the same lines. A search with a program file made from the patterns prints the same hits as a search with the patterns, and a program file that is cut short is refused.',
  ['inputs', 'programs'], 'for every set of pattern sources, options, inputs and truncation',
  'No test runs these commands; agreement between commands over all pattern sets and memory safety of a program that outlives its file buffer cannot be sampled by unit tests of the helpers.',
  ['src/cmd/main.cpp', 'src/cmd/lg_app.cpp', 'src/lib/errors.cpp', 'src/lib/program.cpp'],
  [('errors of all sources', 'src/lib/errors.cpp'), ('program files', 'src/cmd/main.cpp loadProgram, src/cmd/lg_app.cpp writeProgram')],
  ['lightgrep -c validate', 'lightgrep -c program', 'lightgrep --program-file'])

p('C25', 'The Python package reports what the C interface reports',
  'Searching through the Python package gives the same hits, offsets, pattern information, messages and decoded contexts as the same calls of the C interface, for text in any contiguous buffer (bytes, bytearray, memoryview, array, mmap; measured in bytes), whole or in blocks, from one context or several, with 64-bit offsets and user indices. A program read from a buffer stays usable after the caller drops the buffer. Arguments C could not represent are refused, not truncated. Handles that are closed, or whose owner is closed, are refused with an exception, and nothing the caller does in this way touches freed memory.',
  ['inputs', 'call sequences', 'object lifetimes'], 'for every set of patterns, text, kind of buffer, cutting into blocks, order of calls and of dropping the objects',
  'The unit tests of the package search one or two small texts as bytes; lifetimes, other buffer kinds, offsets beyond 32 bits and text that C strings cannot carry appear only over many combinations, and use after free shows only in instrumented runs.',
  ['pylightgrep/lightgrep/__init__.py', 'include/lightgrep/api.h', 'include/lightgrep/util.h'],
  [('buffers and handles', 'pylightgrep/lightgrep/__init__.py: buf_range, Handle, Program, Context'), ('hit contexts', 'pylightgrep/lightgrep/__init__.py: HitDecoder')],
  ['lightgrep.Context.search, startswith, closeout', 'lightgrep.Program.read, write', 'lightgrep.HitDecoder.hit_context'])
p('C26', 'The Java classes report what the C interface reports',
  'Searching through the Java classes gives the same hits, counts, pattern information, messages and decoded contexts as the same calls of the C interface, for text in arrays and in heap, direct, sliced and read-only buffers (whose position is left alone), whole or in blocks, with 64-bit offsets in hits; strings with characters beyond the BMP pass unchanged both ways. A program read from an array does not depend on the array afterwards. Ranges outside the array, null arguments, destroyed handles and faulty patterns or encodings are refused with an exception of the documented class; an exception of the callback ends the search and reaches the caller. Any number of hits or failing calls can be handled without memory being left behind, and no use of JNI is illegal.',
  ['inputs', 'call sequences', 'object lifetimes'], 'for every set of patterns, text, kind of buffer, cutting into blocks, order of calls, bad argument and number of hits',
  'The Java unit tests run few patterns over small arrays without checked JNI; millions of hits, freed or moved buffers, undocumented JNI use and characters outside the BMP are beyond them.',
  ['src/java/jni/jlightgrep.cpp', 'src/java/src/main/java/com/lightboxtechnologies/lightgrep/ContextHandle.java', 'src/java/src/main/java/com/lightboxtechnologies/lightgrep/ProgramHandle.java', 'src/java/src/main/java/com/lightboxtechnologies/lightgrep/LGUtil.java'],
  [('strings, buffers, exceptions', 'src/java/jni/jlightgrep.cpp'), ('argument checks', 'src/java/src/main/java/com/lightboxtechnologies/lightgrep/*.java')],
  ['ContextHandle.search, startsWith, closeoutSearch', 'ProgramHandle.compile, write, read', 'LGUtil.getHitContext'])

p('C27', 'Memory and time stay in proportion to patterns and text',
  'Searching needs memory in proportion to the program times the number of starts still live, however ambiguous the patterns are (never growing exponentially with the text), and time in proportion to that and the text; for patterns of bounded length memory does not depend on how much text was searched and time is linear in it. A context used again and again does not grow. Compiling a set of plain patterns takes time and memory about linear in their number, and for one pattern at most polynomial in its size (quadratic for alternatives, classes, literals and fixed repetitions) at low determinization depth. Decoding the context of a hit takes time and memory linear in the window.',
  ['inputs', 'sizes'], 'for every pattern set, text, encoding and size',
  'Tests use small inputs where quadratic and even exponential behaviour is invisible; only measured runs over growing sizes, with ambiguous patterns, show it.',
  ['src/lib/vm.cpp', 'src/lib/compiler.cpp', 'src/lib/nfabuilder.cpp', 'src/lib/nfaoptimizer.cpp', 'src/lib/lightgrep_c_util.cpp'],
  [('one thread per state and start', 'src/lib/vm.cpp'), ('pruning edges', 'src/lib/nfabuilder.cpp'), ('leading context', 'src/lib/lightgrep_c_util.cpp')],
  ['lg_search', 'lg_create_program', 'lg_hit_context'])

p('C28', 'The graph drawn of a set of patterns is an automaton with the same matches',
  'The graph command draws a digraph in which every vertex is declared under its own number, vertex 0 is the beginning, vertices where a match ends are marked, edges of a vertex are numbered by priority, and the label of an edge shows exactly the bytes it consumes (runs of bytes, unprintable ones in hexadecimal) and, where a pattern is decided, its index. Read as an automaton in which, per pattern, the leftmost match begun earliest and the path preferred by priority wins, it has on every text exactly the hits that a search for the patterns has, for every encoding and determinization depth. Refused patterns are reported as by a search, and the command fails exactly if no pattern is accepted.',
  ['programs', 'inputs'], 'for every pattern source, encoding, determinization depth and text',
  'The drawing is only tested on hand-made graphs of a few vertices; whether the picture of a compiled set shows what the search engine does can be seen only by running both over many texts.',
  ['src/lib/utility.cpp', 'src/lib/states.cpp', 'src/lib/automata.cpp', 'src/cmd/main.cpp', 'src/lib/nfaoptimizer.cpp'],
  [('drawing', 'src/lib/utility.cpp writeGraphviz, writeVertex, writeEdge'), ('labels', 'src/lib/states.cpp label, src/lib/automata.cpp Glushkov::label'), ('command', 'src/cmd/main.cpp writeGraphviz')],
  ['lightgrep -c graph'])

# claimed: id -> (technique, level_note)
CLAIM = {
 'C01': ('reference-model monitor over random executions', 'every execution is compared with an independent backtracking matcher; plain build for volume, ASan+UBSan build for memory errors'),
 'C02': ('differential monitor over recorded hits', 'hits in the set against hits of each pattern alone'),
 'C03': ('differential monitor over recorded hits', 'hits of every cutting against the uncut search; buffers are exact-size heap blocks freed after the call, under ASan in part of the cases'),
 'C04': ('differential monitor over recorded hits', 'hits at up to ten depths against depth 0'),
 'C05': ('differential monitor plus ASan on truncated input', 'behaviour of the copy against the original; exact-size heap buffers'),
 'C06': ('online trace monitor on the hit callback', 'safety automaton over each delivered hit'),
 'C07': ('online trace monitor on returned offsets', 'history checked against later deliveries, and search+resolve against the whole search'),
 'C08': ('reference-model monitor over random executions', 'anchored reference matcher'),
 'C09': ('history monitor against fresh contexts', 'random interleaved operation histories'),
 'C11': ('reference-model monitor over random executions', 'membership of every probed code point against ICU per-character functions and own set algebra; one case in six probes all scalar values'),
 'C12': ('reference-model monitor over random executions', 'hits against membership computed by full case folding'),
 'C13': ('reference-model monitor over random executions', 'hits against plain substring search for the denoted text'),
 'C10': ('reference-model monitor over random executions', 'expected bytes from ICU converters driven one character at a time and own UTF codecs'),
 'C14': ('online monitor of every decoded element plus ASan', 'own decoders and a brute-force search for the best leading context; exact-size heap buffers'),
 'C15': ('round-trip monitor over recorded hits', 'decoded text against pattern text and known surrounding characters'),
 'C16': ('ASan, UBSan and LSan on random hostile histories', 'sanitizers decide; buffers are exact-size heap blocks'),
 'C17': ('reference-model monitor over random histories', 'own recognizer of the pattern syntax; lists against individual additions'),
 'C19': ('ThreadSanitizer plus differential monitor over recorded interleavings', 'stress with random pauses and cold-start processes; results against a single thread'),
 'C18': ('history monitor against fresh builds', 'random FSM histories with refused patterns'),
}
CLAIM.update({
 'C20': ('output monitor with an own matcher, on plain and ASan+UBSan builds', 'every printed sample is judged by an own set-of-positions matcher'),
 'C21': ('differential monitor of the tool against the library, on plain and ASan+UBSan builds', 'every output line against the hits the library reports through its C interface'),
 'C22': ('output monitor with an own computation of lines, on plain and ASan+UBSan builds', 'own line boundaries; text decoded by Python codecs where it is valid, by the library (see C14) elsewhere'),
 'C23': ('output monitor with an own count, on plain and ASan+UBSan builds', 'counts recomputed from the hits the library reports'),
 'C24': ('differential monitor between commands and library, on plain and ASan+UBSan builds', 'error lines against the errors of the library, program files against direct searches'),
})
CLAIM.update({
 'C25': ('differential monitor of the Python package against the C interface, on plain and ASan+UBSan builds', 'both sides run in one process; the library under the package is plain for volume and ASan-instrumented for memory errors'),
 'C27': ('resource monitor: allocation counts and CPU time over growing sizes', 'memory counted exactly in operator new and delete; time bounds have a margin of at least five and are re-measured before a violation is reported'),
 'C26': ('differential monitor of the Java classes against the C interface, under -Xcheck:jni, on plain and ASan+UBSan builds', 'the JVM runs a script and its answers are compared line by line; native memory is watched while calls are repeated'),
})
CLAIM['C28'] = ('differential monitor of the drawn automaton against searching, on plain and ASan+UBSan builds', 'the drawing is parsed and run by an own simulator; labels that can be read in two ways are tried both ways')
LEVEL = {}
NA = {}
