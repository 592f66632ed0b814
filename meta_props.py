PROOF = 'contract-based deductive verification: VC generation over clang IR of the real functions, z3/cvc5; executable contract replays counterexamples'
BOUND = 'executable contracts on the real code (bounded stand-in: exhaustive small scope plus seeded random), nothing counted as proved'
MIXED = 'contract-based deductive verification of the core functions; bounded executable contract for the rest (labelled)'

prop('Q01', 'Escaping of annotated text round-trips',
  'Every byte string escaped for the native annotated-text format unescapes to exactly itself, without an error. The escaped form never contains a raw blank, newline, tab or carriage return. A blank becomes an underscore; newline, tab and CR become a backslash and a letter; a literal underscore, asterisk, backslash or hash is preceded by a backslash; every other byte stays as it is.',
  ['inputs'], 'all byte strings of any length', 'The tests escape a few fixed words; the claim is about every byte string.',
  ['common/quoter.cpp', 'common/utt_like_quoter.cpp', 'common/psi_quoter.cpp'], [],
  [('escape/unescape tables', 'common/utt_like_quoter.cpp'), ('the extra # escape', 'common/psi_quoter.cpp')], ['PsiQuoter::escape / unescape'],
  PROOF, 'proof', 'escape(s)=ENC(s), unescape(ENC(s))=s proved for every string; std::string modelled as a mathematical sequence')

prop('L01', 'Layer-tag sets obey set algebra',
  'Union, intersection, the subset test, equality, emptiness and the hash of layer-tag collections are those of the sets of tags they hold, for any two collections. Computing them never changes the operands, and equal collections have equal hashes.',
  ['inputs'], 'all pairs of tag collections (2^64 x 2^64)', 'The tests try a handful of collections out of 2^128 pairs.',
  ['common/layer_tag_collection.cpp', 'common/layer_tag_collection.hpp'], [], [('bitset operations', 'common/layer_tag_collection.cpp')], ['createUnion, createIntersection, isSubset, ==, getHash'],
  PROOF, 'proof', 'bit-precise; std::bitset is not modelled but inlined from the library headers')

prop('L02', 'A layer mask matches exactly what its alternatives say',
  'A mask made of alternatives matches a tag collection exactly when some alternative is wholly contained in it; the "any" mask matches everything and the "none" mask nothing. Masks built from collections, names or a textual specification (comma for and, semicolon for or) agree, masks with the same list of alternatives are equal and hash alike, and asking a mask a question never changes its later answers.',
  ['inputs', 'histories'], 'all collections, all lists of alternatives, all orders of queries', 'The tests use a few masks of one or two alternatives and query each once.',
  ['common/layer_tag_mask.cpp', 'common/layer_tag_mask.hpp', 'common/layer_tag_manager.cpp'], [], [('matches', 'common/layer_tag_mask.cpp')], ['matches, isAny, isSome, isNone, =='],
  MIXED, 'proof', 'matching proved for all tag sets and lists; construction from specifications and equality bounded')

prop('L03', 'Tag names survive the tag registry',
  'The names listed for a tag collection are exactly the distinct names it was created from, sorted, whatever collections were created before. Names starting with an exclamation mark, and only those, are planes: the planes of a collection are its plane tags, two collections are in the same plane exactly when their plane tags agree, and membership of a name is answered correctly even for names never seen before.',
  ['inputs', 'histories'], 'all histories of up to 64 distinct tag names', 'The tests register a few names once, in one order.',
  ['common/layer_tag_manager.cpp'], [], [('name registry', 'common/layer_tag_manager.cpp')], ['getTagNames, onlyPlaneTags, areInTheSamePlane, isThere'],
  MIXED, 'proof', 'registering one name, membership and planes proved over a contract of boost::bimap; collections of several names, their listing and specifications bounded')

LF = ['common/lattice.cpp', 'common/lattice.hpp']
prop('T01', 'Edge lookup in the lattice is exact and independent of earlier queries',
  'For every vertex and mask, the outgoing and the ingoing edges reported are exactly those edges added there whose tags match the mask, each once. This holds for character edges, for edges at loose vertices and for edges whose tags grew after being added, whatever queries were made before, and "first edge" fails exactly when there is none.',
  ['histories', 'inputs'], 'all histories of adding text, vertices and edges interleaved with queries', 'The tests query a few fixed lattices once, after building.',
  LF, [{'name': 'mask indexes', 'meaning': 'per vertex and mask ever queried, the matching edges', 'where': 'common/lattice.cpp'}], [('index maintenance in addEdge and addTagMaskIndex_', 'common/lattice.cpp')], ['outEdges, inEdges, firstOutEdge, firstInEdge'],
  BOUND, 'exploration', 'bounded: the boost graph is outside the verifier\'s models')
prop('T02', 'Adding an edge merges with the same edge or adds exactly one',
  'Adding an edge with the endpoints, annotation and plane of an existing one creates no second edge: the tags are united, the score becomes the larger one and one partition is added; in every other case exactly one new edge appears. Planes are inherited from the constituents when the new tags name none; loops, reversed edges and edges that would contain themselves are rejected without effect. No addition changes the endpoints, annotation, tags, score or partitions of any other edge, and the edge counts agree.',
  ['histories', 'inputs'], 'all histories of edge additions', 'The tests add few edges and never merge into a character edge twice.',
  LF, [], [('addEdge', 'common/lattice.cpp')], ['addEdge, getEdgeLayerTags, getEdgeScore, getEdgePartitions, countEdges'],
  BOUND, 'exploration', 'bounded: the boost graph is outside the verifier\'s models')
prop('T03', 'An edge sequence yields the edges it was built from',
  'Iterating a sequence built from any edges of the lattice yields exactly those edges in that order, whether or not it is stored as a range of characters. Its size, first, last and n-th edge agree with that list, and its text (as a string or as a fragment) is the concatenation of the texts of its edges.',
  ['histories', 'inputs'], 'all lattices and all lists of edges', 'The tests build sequences of adjacent characters or of tokens, never mixed or discontinuous.',
  LF + ['common/string_frag.cpp'], [], [('EdgeSequence::Builder', 'common/lattice.cpp'), ('StringFrag::append', 'common/string_frag.cpp')], ['EdgeSequence, Iterator, getSequenceText'],
  BOUND, 'exploration', 'bounded: the boost graph is outside the verifier\'s models')
prop('T04', 'Lattice text, edge texts and sorted traversal are exact',
  'The lattice text is the concatenation of everything appended, an edge between text positions has exactly the text between them and its length, and adding characters covers each UTF-8 character by one edge. Traversing the edges sorted by source or by target yields every edge matching the mask exactly once, in the order of its source or target position, and a loose vertex comes after every vertex from which an edge leads to it.',
  ['histories', 'inputs'], 'all lattices over valid UTF-8 text, with acyclic loose edges', 'The tests traverse a few fixed lattices.',
  LF, [], [('VertexIterator and sorted iterators', 'common/lattice.cpp')], ['getAllText, getEdgeText, getEdgeLength, edgesSortedBySource, edgesSortedByTarget'],
  MIXED, 'proof', 'the text of the lattice, the position, length and text of edges and the covering by characters proved over a contract of the graph; storing edges and sorted traversal bounded')
prop('S01', 'A string fragment behaves exactly as its text',
  'A fragment made from a string, a part of a string, or a part of another fragment behaves exactly as the string it stands for: its length, characters, substrings, character search, copies, assignments and appending all agree with plain strings. This holds whether the fragment refers to a source, owns its text or was grown by appending, and appending never loses or adds a byte.',
  ['inputs', 'histories'], 'all strings, ranges and ways of building a fragment', 'The tests build a few fragments of one fixed string.',
  ['common/string_frag.cpp', 'common/string_frag.hpp'], [], [('append and substr', 'common/string_frag.cpp')], ['str, length, operator[], find, substr, append'],
  PROOF, 'proof', 'fragments of each of five kinds, every operation, all strings and ranges')

prop('S03', 'Splitting over-long segments keeps the text and the limits',
  'Cutting a segment that exceeds the length limits yields pieces that together cover exactly the segment. No piece exceeds the hard limit, every cut makes progress, and no cut falls inside a UTF-8 character; above the soft limit a piece ends at the first space or at the end. Limits are exceeded exactly when a limit that is set (nonzero) is reached.',
  ['inputs'], 'all valid UTF-8 texts, all segmentations and all limits', 'The tests cut a few fixed sentences at one pair of limits.',
  ['common/cutter.cpp', 'common/cutter.hpp'], [], [('cut points', 'common/cutter.cpp')], ['the pieces a cutter produces'],
  MIXED, 'proof', 'cut points proved for all texts and limits; assembling the pieces bounded')

prop('A01', 'Annotation items keep exactly the attributes they were given',
  'After any history of setting and reading attributes on any number of items sharing one manager, each item has exactly the values last set on it, listed with their names; items that were never given an attribute do not have it, and setting one item never changes another. Integers of any size and strings are read back as set.',
  ['histories', 'inputs'], 'all histories over any number of items, names and values', 'The tests set a few attributes once.',
  ['common/annotation_item.cpp', 'common/annotation_item_manager.cpp', 'common/zvalue.cpp', 'common/zvalue.hpp'], [], [('attribute interning', 'common/annotation_item_manager.cpp'), ('value encoding', 'common/zvalue.cpp')], ['getValue, getValueAsString, getValues'],
  MIXED, 'proof', 'setting and reading one attribute and keeping integers proved over contracts of boost::bimap and std::bitset, so that any history of them keeps what was set; listing and text values bounded')

prop('W01', 'The web server serves only files under its document root',
  'An address decodes exactly when each percent sign is followed by two hex digits (plus means a blank). A file is read only for a decoded path that starts with a slash and holds no "..", and only from the document root, with index.html for a directory; every other address is answered as a bad request, a missing file as not found. A found file is sent unchanged with its length and the content type of its extension.',
  ['inputs'], 'all addresses', 'The tests never send an address with traversal or malformed escapes.',
  ['server/server/request_handler.cpp', 'server/psi_request_handler.cpp', 'server/server/mime_types.cpp'], [], [('url_decode and the path guard', 'server/server/request_handler.cpp'), ('content types', 'server/psi_request_handler.cpp')], ['handle_request'],
  MIXED, 'proof', 'decoding and the path guard proved for every address; content, length and type of the answer bounded')

prop('W02', 'HTTP requests are read exactly, however they arrive',
  'A well-formed request is read back field by field (method, address, version, headers, data) and is complete exactly at its last byte: never earlier, and never waiting for more. How the bytes are split into reads does not matter; data are as many bytes as Content-Length says, and a malformed head is refused. The value of a header is that of the last header of that name.',
  ['inputs', 'schedules'], 'all requests (without folded headers) and all ways of splitting them', 'The tests parse a few whole requests.',
  ['server/server/request_parser.cpp', 'server/server/request_parser.hpp', 'server/server/request.hpp'], [{'name': 'parser state', 'meaning': 'the position in the request grammar and the bytes of data still awaited', 'where': 'server/server/request_parser.hpp'}], [('consume', 'server/server/request_parser.cpp')], ['parse, get_header_value'],
  MIXED, 'proof', 'data states, end of head and header lookup proved; the head grammar bounded')

prop('W03', 'Web sessions keep each browser\'s data apart',
  'A browser that sends the cookie it was given gets its own session back, whatever other cookies it sends; every other browser gets a new session, with an identifier never used before and safe in a cookie. A session holds exactly the data last set in it, and never those of another.',
  ['histories', 'inputs'], 'all sequences of requests and all cookie headers', 'The tests look up one cookie.',
  ['server/session_manager.cpp', 'server/session.cpp', 'server/psi_request_handler.cpp', 'common/guid_generator.cpp'], [{'name': 'sessions_', 'meaning': 'identifier to session data', 'where': 'server/session_manager.hpp'}], [('cookie parsing', 'server/session_manager.cpp'), ('session choice', 'server/psi_request_handler.cpp')], ['SessionId, handle_request, getData'],
  MIXED, 'proof', 'reading back the cookie proved for every identifier; histories bounded, one request at a time')

prop('W04', 'Submitted forms are decoded exactly',
  'Form data sent in the address or as data reach the action as exactly the fields they encode: fields are separated by ampersands, names and values by the first equals sign, plus is a blank, percent and two hex digits are a byte, and anything else stands for itself. A page\'s include markers are replaced by the text registered for them (nothing when there is none), and all other text stays.',
  ['inputs'], 'all form data and all pages', 'The tests decode a couple of simple forms.',
  ['server/psi_server.cpp'], [], [('parseNamesAndValues and urlDecode', 'server/psi_server.cpp'), ('include', 'server/psi_server.cpp')], ['checkForAction, include'],
  MIXED, 'proof', 'urlDecode proved for every value; field splitting and includes bounded')

prop('W05', 'Multipart forms are read exactly, however they arrive',
  'Every field of a multipart form (text or file) is read back with its name, file name and exactly its bytes, whatever they are as long as they do not contain the boundary, and however the data are split into reads. Reading never touches memory outside the data received.',
  ['inputs', 'schedules'], 'all multipart forms and all ways of splitting them', 'The tests do not parse multipart data.',
  ['server/mpfd-parser/Parser.cpp', 'server/mpfd-parser/Field.cpp', 'server/psi_server.cpp'], [], [('boundary search and truncation', 'server/mpfd-parser/Parser.cpp'), ('_ProcessData, _ParseHeaders', 'server/mpfd-parser/Parser.cpp'), ('AcceptSomeData', 'server/mpfd-parser/Field.cpp')], ['AcceptSomeData, GetFieldsMap'],
  MIXED, 'proof', 'every function from the arrival of a piece of data to the content of a field in memory is proved, buffers included; streams (files stored on disk) are not covered')

prop('W06', 'JSON output is JSON and says what was written',
  'Whatever texts, annotations and nested arrays are written, the JSON writer produces one well-formed JSON array that decodes to exactly them. The JSON service always answers one well-formed object holding exactly the pipe, the input, the output and the error, for any text.',
  ['inputs', 'histories'], 'all texts and all sequences of writes', 'The tests compare a few fixed outputs.',
  ['formats/json-simple/json_lattice_writer_output.cpp', 'server/site/json_site.cpp'], [], [('string escaping', 'formats/json-simple/json_lattice_writer_output.cpp'), ('escape_', 'server/site/json_site.cpp')], ['the JSON text'],
  MIXED, 'proof', 'the writer\'s escaping proved for every string; nesting and the service bounded')

prop('P01', 'A lattice written in the native format is read back the same',
  'Writing any lattice in the native (PSI) format and reading it back gives the same text and the same annotations: endpoints, category, annotation text, attributes, tags, score, and each analysis with its parts in order, their roles, tags and score. It holds for any UTF-8 text, covered by symbol edges or not, and for names holding blanks, underscores and backslashes. Not part of the format, so excluded: names holding its own delimiters, an empty analysis beside others, an edge that is part of its own analysis, loose vertices, bare character edges, and text after the last annotation.',
  ['inputs', 'histories'], 'all lattices the format can express', 'The tests compare the output and the reading of a few fixed files.',
  ['formats/psi/psi_writer/psi_lattice_writer.cpp', 'formats/psi/psi_reader/psi_lattice_reader.cpp', 'formats/psi/psi_reader/psi_lattice_reader.hpp', 'common/psi_quoter.cpp', 'common/escaping.cpp'], [], [('writer', 'formats/psi/psi_writer/psi_lattice_writer.cpp'), ('reader and grammar', 'formats/psi/psi_reader/psi_lattice_reader.cpp')], ['the lattice read back'],
  MIXED, 'exploration', 'bounded: the grammar is Boost.Spirit; proved are the test for an escaped character (here) and the quoting (Q01)')

prop('U01', 'UTF-8 is coded exactly and case conversion follows Unicode',
  'Reading UTF-8 accepts exactly the well-formed sequences (no overlong forms, surrogates, values above 10FFFF or truncation), gives their code point and moves past them; every code point is written in its one well-formed form. Lower, upper and title case of any text is the concatenation of the Unicode mappings of its characters (Unicode 6; special casing included, and the dotted and dotless i of Turkish and Azeri, but no other context); converting the head or tail touches nothing else, and a text reported as untouched by a conversion is indeed unchanged by it.',
  ['inputs'], 'all byte strings, all code points, all texts', 'The tests convert a dozen characters.',
  ['utf8/utf8/core.h', 'utf8/utf8/checked.h', 'utf8/utf8/unchecked.h', 'utf8case/case_tables.cpp', 'utf8case/range_based_case_converter.cpp', 'utf8case/special_casing_converter.cpp', 'utf8case/general_case_converter.hpp', 'utf8case/simple_convert.cpp'], [], [('UTF-8 decoding', 'utf8/utf8/core.h'), ('tables and lookup', 'utf8case/range_based_case_converter.cpp'), ('text conversion', 'utf8case/general_case_converter.hpp')], ['utf8::next/append', 'simpleConvert'],
  MIXED, 'proof', 'UTF-8 coding and the range tables proved for every input; special casing and whole texts exhaustive over code points and bounded over texts')

DL = 'tools/datastructures/lexica/'
prop('X01', 'Lexicon stores give back exactly what was put in',
  'Whatever growing numbers, strings or key-value pairs are stored, in whatever number, length or order, every one is read back exactly: at its position, by iteration, by search, and after saving and loading, which read back just what was saved. Keys never stored are not found. A plain text lexicon gives, for each key, the records of all its lines in order, comments, blank lines, indentation and escapes aside, and none for other keys; a lexicon without entries is empty.',
  ['inputs', 'histories'], 'all sequences of values, strings, keys and lexicon lines (positions below 2^32)', 'The tests store a few short sequences of small values.',
  [DL + 'monotonic_vector.hpp', DL + 'string_vector.hpp', DL + 'key_value_store.cpp', DL + 'perfect_hash_index.hpp', DL + 'perfect_hash_index.cpp', DL + 'lexicon_base.cpp'], [{'name': 'compressed positions', 'meaning': 'anchors, differences and rests represent the sequence of starts', 'where': DL + 'monotonic_vector.hpp'}], [('MonotonicVector::at/push_back', DL + 'monotonic_vector.hpp'), ('StringVector', DL + 'string_vector.hpp'), ('KeyValueStore::Builder::build', DL + 'key_value_store.cpp')], ['at, find, get, getRecords, save/load'],
  MIXED, 'proof', 'the compressed number sequence and the addressing of strings are proved for every content; hashing (cmph), files and lexicon text are bounded')
TK = 'tools/tokenizers/tp/'
prop('E01', 'Encoding conversion keeps the text',
  'A text of any length in any encoding the converter lists is converted to exactly the same characters in the target encoding: nothing is lost, added or replaced, wherever the converter\'s buffer ends and whatever state the encodings have; a text with zero bytes is no exception, and the default target and the detected encoding give what naming them gives. A text that is not valid in its encoding, or has a character the target lacks, is left unchanged, as is one in an unknown encoding; of a text that ends within a character, what is complete is converted.',
  ['inputs', 'configurations'], 'all texts of any length, all pairs of listed encodings', 'The tests convert four short texts from three encodings to UTF-8.',
  ['common/encoding_converter.cpp', 'tiniconv/tiniconv.c', 'tiniconv/tiniconv_desc.c', 'tiniconv/encdec'], [{'name': 'conversion state', 'meaning': 'the decoder\'s and the encoder\'s shift states', 'where': 'tiniconv/tiniconv.h'}], [('EncodingConverter::convert_', 'common/encoding_converter.cpp'), ('tiniconv_convert', 'tiniconv/tiniconv.c')], ['the converted text'],
  MIXED, 'proof', 'the portions, the conversion loop, UTF-8 and 28 single-byte encodings are proved for all inputs; multi-byte tables are compared with the C library, character by character')
prop('K01', 'Tokens and sentences tile the text, as the rules say',
  'Each fragment of a text in the language processed is covered without gap or overlap by tokens, and likewise by sentences, each made of exactly the characters it covers and carrying their text; nothing else is added. A token is what the last listed rule with a non-empty match consumes, or one character of category X. A sentence ends at the first position where the first listed rule that matches is a breaking one. Rule files mean what they say: definitions, conditions, includes, comments, escapes, language maps and cascading; malformed ones are reported. With length limits no piece exceeds the hard limit, and what is within the limits is not split.',
  ['inputs', 'configurations'], 'all texts, rule files, languages and limits', 'The tests run the shipped rules on a few sentences.',
  [TK + 'tp_token_cutter.hpp', TK + 'tp_basic_tokenizer_rule_set.cpp', 'tools/segmenters/srx/srx_segmenter.cpp', 'tools/segmenters/srx/srx_rules.cpp', 'common/cutter.cpp', 'common/lattice.cpp'], [{'name': 'rule applications', 'meaning': 'each rule remembers the last start tried and where its match breaks', 'where': 'tools/segmenters/srx/srx_segmenter.cpp'}], [('TpTokenCutter::performCutOff', TK + 'tp_token_cutter.hpp'), ('SrxSentenceCutter::performCutOff', 'tools/segmenters/srx/srx_segmenter.cpp'), ('Lattice::runCutterOnEdge_', 'common/lattice.cpp')], ['token and sentence edges, their text, category and parts'],
  MIXED, 'proof', 'the choice of the rule and of the position is proved for every text, rule list and match behaviour; rule files and the lattice part are bounded')
FW = 'framework/'
prop('F01', 'A pipeline runs what was asked for, with what each processor needs before it',
  'The processors named are run in the order given, with exactly the arguments given; a name may be that of a processor or an alias, which stands for any processor it leads to whose options match. Each annotator comes after processors providing all the tags it needs: missing providers (never ones needing the same tags) are inserted before it, restricted to its language; a language-dependent processor without a language is run once per language of the pipeline. Of all ways that can be created, the one of highest total quality is run, then of lowest time, then the first found. A missing reader, the last processor\'s continuation and a language guesser (or the only language, forced) are added; a pipeline that cannot be completed, or an unknown name (with the closest known one suggested), is refused.',
  ['inputs', 'configurations'], 'all pipelines over all sets of processors whose needs are not circular', 'The tests check a few aliases; pipelines are only run as shipped.',
  [FW + 'pipe_runner.cpp', FW + 'auto_completer.cpp', FW + 'factories_keeper.cpp', FW + 'aliaser.cpp', FW + 'shallow_aliaser.cpp', 'common/annotator_promise.cpp', 'common/edit_distance.hpp'], [], [('complete_', FW + 'auto_completer.cpp'), ('parseIntoFinalPipeline_', FW + 'pipe_runner.cpp')], ['the processors run, their options and order'],
  BOUND, 'exploration', 'bounded: the completion searches a graph of factories, promises and boost::program_options objects, which the verifier does not reach; compared with an independent reading of the rules over made-up processors')
prop('G01', 'File patterns select exactly the files they describe',
  'In a pattern element a star stands for any characters of a name, a question mark for exactly one character (of UTF-8, however many bytes), any other character for itself, and the whole name has to match. An element of two stars stands for any number of directories, also none; at the end of a pattern, for any file below. A pattern selects exactly the regular files whose path from the starting directory (or the root) it describes, each once. In a file specification each %name% is replaced by the value of that parameter, once, and an unknown parameter or a lone percent sign is an error; the commas and semicolons separate patterns whose files are united; asking for one file fails unless exactly one matches. Names that are not valid UTF-8 do no harm.',
  ['inputs', 'configurations'], 'all patterns, names, directory trees and parameters', 'The tests match two dozen names and search one small tree.',
  ['common/segment_glob.cpp', 'common/ant_like_path_glob.cpp', 'common/file_fetcher.cpp', 'common/file_fetcher.hpp'], [], [('matches', 'common/segment_glob.cpp'), ('findMatchingFiles_', 'common/ant_like_path_glob.cpp'), ('replaceParams_', 'common/file_fetcher.cpp')], ['the files selected'],
  MIXED, 'proof', 'the matching of names is proved for ASCII names of any length by the meaning of patterns; parameters of file specifications too; longer characters and directory search are bounded')
