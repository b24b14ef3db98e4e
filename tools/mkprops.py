import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
S='lib/src/'
p('C01','Parsing a configuration returns exactly the document that was written',
 'For every well-formed configuration document, parsing returns one element per attribute and block, in source order, with the written names, labels (quoted or bare), nesting and expression values (null, booleans, numbers, quoted and heredoc strings, tuples, objects, parenthesised expressions). Nothing is dropped, duplicated, reordered or altered, however deeply values and blocks nest and whatever legal layout the author used.',
 ['inputs'],'every abstract document (bodies of attributes and labelled blocks, recursively nested expressions) times every legal way of laying it out as text',
 'The suite parses a few dozen fixed documents; the space of combinations of nesting, labels, value kinds and layout is unbounded and interactions between constructs (heredoc inside a tuple inside a one-line block...) are not sampled.',
 [S+'parser.rs',S+'parser/body.rs',S+'parser/block.rs',S+'parser/attribute.rs',S+'parser/expression.rs',S+'parser/tuple.rs',S+'parser/object.rs'],
 [('config_file / parse_str','lib/src/parser.rs'),('body many0 of terminated elements','lib/src/parser/body.rs body'),('expression alternatives','lib/src/parser/expression.rs expression'),('tuple/object list parsers','lib/src/parser/tuple.rs, lib/src/parser/object.rs')],
 ['result of parse_str compared with the generated abstract document'])
p('C02','Exactly the documents of the supported grammar are accepted, in full',
 'A configuration text or stand-alone expression text is accepted if and only if the supported grammar derives the whole of it, and then the result is the tree the grammar assigns. In particular a text with a missing terminator, delimiter or operator, trailing garbage, an unterminated string, comment or heredoc, or a malformed element at any position is rejected with an error rather than silently truncated, repaired or partly ignored.',
 ['inputs'],'every text, in particular every near-miss obtained by editing a well-formed document at any position',
 'Only a handful of rejection cases are tested; acceptance and rejection must be right at every position of every text.',
 [S+'parser.rs',S+'parser/body.rs',S+'parser/block.rs',S+'parser/expression.rs',S+'parser/whitespace.rs'],
 [('exact! on the top-level body','lib/src/parser.rs config_file'),('remaining-input check','lib/src/parser/expression.rs Expression::parse'),('newline/eof terminators','lib/src/parser/body.rs body')],
 ['Ok/Err of parse_str and Expression::parse against an independent reference parser'])
p('C03','No text or byte string makes a parser panic or abort',
 'Whatever text or bytes it is given, valid or not, every public parsing entry point returns either a result or an error; it never panics, aborts, or returns an internal "incomplete" state. The same holds for reading back the error as text.',
 ['inputs'],'every byte string (nesting depth bounded by the available stack), through every public entry point and both document models',
 'Totality is a universal statement; the fuzz crates in the repository have no oracle run and the tests only contain well-formed samples.',
 [S+'parser.rs',S+'value.rs',S+'parser/string.rs',S+'parser/number.rs',S+'errors.rs'],
 [('unindent_heredoc slicing','lib/src/parser/string.rs'),('octal_to_string/hex_to_string','lib/src/parser/string.rs'),('Error::from_err_*','lib/src/errors.rs')],
 ['panic / process death / Ok / Err of each call'])
p('C04','Comments, blank lines, indentation and line endings never change meaning',
 'Inserting or removing, wherever the grammar allows layout, spaces, tabs, inline comments, line comments in either style, blank lines, CRLF instead of LF line ends, optional trailing commas, or a final newline leaves the parse result unchanged. Text that merely looks like a comment inside a quoted string or heredoc stays part of the string.',
 ['inputs'],'every well-formed document times every pair of legal layouts of it',
 'A relation between pairs of inputs; tests check single fixed layouts.',
 [S+'parser/whitespace.rs',S+'parser/body.rs',S+'parser/tuple.rs',S+'parser/object.rs',S+'parser/block.rs'],
 [('whitespace, inline_whitespace, newline, comments','lib/src/parser/whitespace.rs')],
 ['equality of parse results of two layouts of one document; result of the public comment/whitespace recognisers'])
p('C05','Quoted strings and string labels decode escapes exactly',
 'A quoted string yields exactly the characters written with each escape (control letters, backslash, quote, question mark, 1-3 octal digits, \\x, \\u and \\U hexadecimal forms) replaced by the character it denotes and everything else, including newlines and non-ASCII text, kept verbatim. Escapes that denote no Unicode scalar value, unknown escapes and unterminated strings are rejected, and label/key literals additionally reject raw line breaks.',
 ['inputs'],'every sequence of characters and escapes of every length',
 'Tests list about a dozen escapes one at a time; greedy digit counts and adjacency of escapes to following digits/text are unbounded.',
 [S+'parser/string.rs'],[('unescape, hex_to_unicode, octal_to_string','lib/src/parser/string.rs'),('escaped_transform content parsers','lib/src/parser/string.rs')],
 ['string_literal, string, parse_str results against an encoder and a reference decoder'])
p('C06','Heredocs return exactly the enclosed lines, with indentation rules applied',
 'A heredoc evaluates to the exact text between its opening line and the first line consisting of optional indentation and the marker, without the final line break. In the indented form each line additionally loses at most as many leading spaces as the closing marker is indented by, and no other character; lines that merely contain or extend the marker do not end it.',
 ['inputs'],'every marker, content text, indentation per line, line-ending style and surrounding construct',
 'Tests have a few fixed heredocs with uniform non-empty lines; blank lines, short lines, lines that look like the marker and multi-byte text are not covered.',
 [S+'parser/string.rs',S+'utils.rs'],[('heredoc_begin/heredoc_end/heredoc_string','lib/src/parser/string.rs'),('unindent_heredoc','lib/src/parser/string.rs'),('take_till_match!','lib/src/utils.rs')],
 ['string value from heredoc_string / parse_str'])
p('C07','Numeric literals keep their exact text and convert exactly or fail',
 'A numeric literal of any length is preserved character for character and is classified as float exactly when it has a fraction or exponent, and as unsigned exactly when it is an integer without a minus sign. Converting it to a native integer type succeeds exactly when it is an integer literal within that type and then gives its value; converting it to a native float gives the correctly rounded value.',
 ['inputs'],'every numeric literal (sign, whole, fraction, exponent, any number of digits) and every native numeric target type',
 'Tests contain a few small literals; boundary values of twelve target types and arbitrary-precision text are not covered.',
 [S+'parser/number.rs'],[('number, exponent','lib/src/parser/number.rs'),('as_* conversions, is_* predicates','lib/src/parser/number.rs')],
 ['parsed number text, predicates, conversions against arbitrary-precision decimal arithmetic'])
p('C08','Numbers compare by value and round-trip native numbers',
 'Two numbers are equal exactly when they denote the same integer value (for integers of up to 128 bits), or the same real value up to double-precision rounding when either is a float; in particular equality is reflexive and symmetric and distinguishes numbers of opposite sign. A number built from any native integer or finite float converts back to exactly that native value and equals the number parsed from its decimal text.',
 ['inputs'],'every pair of numeric literals or native values, including extremes of every type',
 'Tests compare a few positive pairs; sign, magnitude and boundary combinations are a product space.',
 [S+'parser/number.rs',S+'parser/expression.rs'],[('PartialEq for Number','lib/src/parser/number.rs'),('From<native> for Number/Expression','lib/src/parser/number.rs, lib/src/parser/expression.rs')],
 ['== between numbers, as_* after From'])
p('C09','Identifiers and block labels follow Unicode identifier rules everywhere',
 'A name is accepted exactly when it starts with a Unicode ID_Start character or underscore and continues with ID_Continue characters or dashes, in every position a name can occur (attribute, block type, bare label, object key), and is returned verbatim and in full. Labels keep their order, number, text and whether they were quoted.',
 ['inputs'],'every string of Unicode characters used as a name, every sequence of bare and quoted labels',
 'Tests try a few ASCII names; the rule quantifies over all Unicode scalar values and all label lists.',
 [S+'parser/identifier.rs',S+'parser/block.rs',S+'parser/object.rs'],[('identifier','lib/src/parser/identifier.rs'),('block_label, block_labels','lib/src/parser/block.rs')],
 ['identifier, block_labels, parse_str results against an independently obtained Unicode table'])
p('C10','String, byte-slice and stream entry points agree under any read schedule',
 'Parsing the same document from a string, a byte slice or a reader gives the same outcome for both document models, however the reader splits the bytes into chunks or interleaves interrupted reads. Bytes that are not valid UTF-8 are always rejected, and a read failure at any point is reported as an I/O error rather than a result for the bytes read so far.',
 ['inputs','fault_sequences'],'every byte content, every chunking of it, every position of an interruption or read failure',
 'Tests never use a reader that returns short reads or errors.',
 [S+'parser.rs',S+'value.rs'],[('parse_str/parse_slice/parse_reader','lib/src/parser.rs'),('value::from_str/from_slice/from_reader','lib/src/value.rs')],
 ['results of the six entry points'])
p('C11','Owned copies are equal to, and independent of, the borrowed originals',
 'Turning any parsed tree, body, block, container or value tree into its owned form yields an equal tree of the same shape, kinds and key styles, that stays valid and unchanged after the source text is gone. Copying again changes nothing.',
 ['inputs'],'every parsed document and every value tree, merged or not',
 'Ownership conversion is a recursive copy over every node kind; no test compares trees through it.',
 [S+'lib.rs',S+'parser/expression.rs',S+'parser/object.rs',S+'parser/block.rs',S+'parser/number.rs',S+'value.rs',S+'parser/literals/key.rs'],
 [('AsOwned implementations','lib/src/lib.rs and each AST type')],['as_owned() result compared with original and with the abstract document'])
p('C12','The block index never loses, merges or misfiles a block',
 'After any sequence of building from and adding blocks in any order, looking up a block type and label path returns exactly the bodies added with that path and its extensions in insertion order, the flattened iterations yield every added block exactly once with its type and labels, and counts and label-length queries describe exactly the blocks added. Building at once, adding one by one, and collecting from an iterator are equivalent, and mutation through mutable access is seen by later reads.',
 ['histories'],'every finite sequence of blocks (types, label paths of any length sharing prefixes, repeated labels) and every mix of bulk and incremental construction followed by queries',
 'Tests build a few fixed indices with the blocks of a type adjacent to each other; the guarantee is about every insertion order.',
 [S+'parser/block.rs'],[('Blocks::new/append/get/flat_iter*','lib/src/parser/block.rs'),('BlockBody::append/body_to_labels/label_lens*','lib/src/parser/block.rs')],
 ['get, get_mut, flat_iter, flat_iter_mut, flat_into_iter, len*, label_lens* against a list model'],
 [('blocks','bodies by type and label path','lib/src/parser/block.rs Blocks, BlockBody')])
p('C13','Key-value and one-or-many containers behave like their reference collections',
 'An unmerged key-value collection behaves as an ordered list of pairs and a merged one as a map: length, emptiness, iteration of pairs, keys and values, lookup of one or all values of a key, indexing, extension and consumption all agree, and iterator lengths are exact at every step. A one-or-many value iterates exactly its elements in order.',
 ['histories','inputs'],'every sequence of construct/extend/query operations over keys with duplicates',
 'Only indirect use in tests; no test exercises iterator laws or duplicate keys systematically.',
 [S+'lib.rs',S+'iter.rs'],[('KeyValuePairs','lib/src/lib.rs'),('iterators','lib/src/iter.rs'),('OneOrMany','lib/src/lib.rs')],
 ['public methods of both containers against Vec/HashMap models'])
p('C14','The value-tree parser returns exactly the document written, or an error',
 'Parsing a document into an unmerged value tree yields, for every well-formed document of that model, every key and block in source order with its written key style, labels and value (integers that fit 64 bits as integers, other numbers as floats), and rejects every other text. Nothing is dropped or truncated.',
 ['inputs'],'every text, generated documents of the value-tree grammar and near-miss edits of them',
 'Tests parse seven fixtures and some fragments.',
 [S+'value.rs',S+'parser.rs',S+'parser/literals/key.rs',S+'parser/literals/number.rs'],[('map_values, attribute, single_value, list, map_expression, body','lib/src/parser.rs'),('literals::key, literals::number','lib/src/parser/literals'),('value::from_str','lib/src/value.rs')],
 ['value::from_str(_, None) against generated documents and an independent reference parser'])
p('C15','The two document models agree on every document both accept',
 'For every document both the syntax-tree parser and the value-tree parser accept, both describe the same attributes and blocks in the same order with the same scalar values, list elements, object entries, labels and strings.',
 ['inputs'],'every text accepted by both parsers',
 'No test compares the two parsers.',
 [S+'parser.rs',S+'value.rs',S+'parser/body.rs'],[('parse_str','lib/src/parser.rs'),('value::from_str','lib/src/value.rs')],
 ['structural correspondence of the two results'])
p('C16','Merging combines repeated keys without losing anything, or refuses',
 'Merging a value tree yields unique keys at every level: repeated object entries are concatenated in order, repeated blocks of one type are united by label, everything else is unchanged, and every scalar of the unmerged tree is present in the merged one. A repeated scalar or list key, a repetition with conflicting kinds, or a repeated block with identical labels is reported as an error; merging is idempotent and succeeds or fails independently of which entry point requests it.',
 ['inputs'],'every unmerged value tree with arbitrary repetition of keys and labels at every level',
 'Tests merge the fixtures only, which contain few repeated keys and no conflicting ones.',
 [S+'value.rs',S+'lib.rs'],[('MapValues::new_merged','lib/src/value.rs'),('Block::new_merged','lib/src/value.rs'),('Value::merge','lib/src/value.rs'),('from_str(_, Some(Error))','lib/src/value.rs')],
 ['merge results against a reference merge over the abstract document'])
p('C17','Merge-state conversions, scalar counts and flags agree with the contents',
 'The merged/unmerged flags are true exactly when every nested collection is in that state, scalar counts equal the number of scalars in the tree at every level, and borrowing conversions give the same result as consuming ones and leave the original untouched. Converting a merged collection back to unmerged preserves exactly its entries, and merging that again restores it.',
 ['inputs'],'every value tree and collection, in every mix of merge states',
 'Flags and counts are asserted for fixtures only.',
 [S+'lib.rs',S+'value.rs'],[('Mergeable, ScalarLength','lib/src/lib.rs'),('unmerge/as_merged/as_unmerged/borrow_keys','lib/src/value.rs')],
 ['is_merged, is_unmerged, len_scalar, len, unmerge, as_merged, as_unmerged, borrow_keys'])
p('C18','Typed accessors return the stored value or a precise error, never another kind',
 'For every value exactly one kind test is true, the accessor for that kind (by reference, by mutable reference or consuming) returns the stored data, and every other accessor returns an error naming the expected and the actual kind, with consuming accessors handing the value back unchanged. Length and emptiness queries are defined for every kind.',
 ['inputs'],'every value of every kind times every accessor',
 'The matrix of kinds and accessors over arbitrary payloads is not tested.',
 [S+'value.rs',S+'constants.rs',S+'errors.rs'],[('Value accessors','lib/src/value.rs')],
 ['results of all accessors'])
p('C19','Deserializing an expression delivers exactly its value or an error',
 'Deserializing an expression into a Rust type gives the value the expression denotes: integers anywhere in the signed and unsigned 64-bit ranges exactly into every type that can hold them and an error for types that cannot, floats correctly rounded, strings, booleans, null/options, tuples of matching length, sequences and objects element by element. Wrong kinds, wrong tuple lengths and repeated object keys are errors; no value is truncated, defaulted or skipped. Keys of value trees deserialize to their text.',
 ['inputs'],'every expression times the family of primitive, optional, sequence, tuple, map and struct target types',
 'Tests try one or two values per type, none at the range limits.',
 [S+'serde/de.rs',S+'serde/de/expression.rs',S+'serde/de/object.rs'],[('deserialize_number/string/tuple/object','lib/src/serde/de.rs'),('Deserializer for Expression','lib/src/serde/de/expression.rs'),('ObjectMapAccess','lib/src/serde/de/object.rs')],
 ['typed and self-describing deserialization results'])
p('C20','Deserializing a document delivers every attribute and block exactly once',
 'Deserializing a document into Rust types yields each attribute and all unlabelled blocks of each type exactly once, in source order within a type and independently of how attributes and blocks of different types are interleaved, so that rendering a typed configuration as text and deserializing it returns an equal configuration. Repeated attributes, or a name used both as attribute and block, are an error, and so are labelled blocks of a type that is read: they are never dropped silently.',
 ['inputs'],'every typed configuration, every interleaving and layout of its rendering, every set of repeated names',
 'Tests deserialize a few structs with adjacent blocks.',
 [S+'serde/de/body.rs',S+'serde/de/block.rs',S+'parser/block.rs'],[('build_map_acces_iter','lib/src/serde/de/body.rs'),('BlockBody deserializer','lib/src/serde/de/block.rs'),('Blocks::new','lib/src/parser/block.rs')],
 ['serde from_str results against the generated configuration'])
p('C21','Deserialization of any text into any type returns a value or an error',
 'Deserializing arbitrary text into any Rust type, including documents with labelled blocks, repeated names, expression-valued keys and kinds that do not match the target, returns a value or an error and never panics. Well-formed parts of a document that the target type ignores never make it fail, unless they repeat a name.',
 ['inputs'],'every text times a family of target types, including self-describing and ignoring ones',
 'Tests use only matching documents.',
 [S+'serde/de/body.rs',S+'serde/de/block.rs',S+'serde/de/object.rs',S+'serde/de/expression.rs'],[('Deserializer implementations','lib/src/serde/de')],
 ['panic / Ok / Err of serde from_str'])
p('C22','Searching for the earliest match is exact and never splits a character',
 'The search combinator returns the text before the earliest position at which the inner parser succeeds, that match and the rest, which concatenate to the input, and an error if no position matches, for text and byte inputs alike. The safe positions of an input are exactly its element boundaries in increasing order.',
 ['inputs'],'every input (multi-byte text, bytes) and every needle or inner parser',
 'Doc test with one example; failing searches and byte inputs are not tested.',
 [S+'utils.rs'],[('take_till_match!','lib/src/utils.rs'),('SafeIndexing','lib/src/utils.rs'),('while_predicate1','lib/src/utils.rs')],
 ['macro result and safe_indices against a naive search'])
p('C23','Names that are equal text are the same key, however they were written',
 'Keys and labels with the same text are equal, hash alike and are found by looking up that text, whether written bare or quoted and borrowed or owned, and keys or labels with different text are never identified. Hence a collection keyed by them holds one entry per distinct text and every lookup by text finds it.',
 ['inputs'],'every pair of keys or labels over all kinds and texts',
 'Hash/equality coherence is a relation over pairs; no test looks at it.',
 [S+'parser/block.rs',S+'parser/literals/key.rs',S+'parser/object.rs'],[('Hash, PartialEq, Borrow<str> of labels and keys','lib/src/parser/block.rs, lib/src/parser/literals/key.rs, lib/src/parser/object.rs')],
 ['==, hash, map lookup'])
p('C24','The command line prints the parsed document or fails leaving outputs alone',
 'Running the parse command on a document, from a file or standard input, writes exactly the library\'s rendering of the merged document (or unmerged when merging is switched off) to standard output or the named file and exits with status 0. On any unreadable or malformed input or merge conflict it exits with a non-zero status, prints an error, prints no document, and does not create or modify the output file.',
 ['inputs','configurations','fault_sequences'],'every document and every combination of input source, output destination, merge option and failure (missing file, invalid UTF-8, syntax error, merge conflict, unwritable output)',
 'The command line crate has no tests.',
 ['cli/src/main.rs','cli/src/error.rs'],[('run_parse','cli/src/main.rs')],
 ['exit status, standard output, output file'])
p('C25','Parsing work grows at most polynomially with input size',
 'For every text of bounded nesting, well-formed or malformed, the work each parsing entry point performs is bounded by a fixed low-degree polynomial of the text length; in particular nesting of blocks, objects, tuples and parentheses, closed or left open, never makes it double per level.',
 ['inputs'],'every text; nested, repeated and truncated structures of growing size',
 'Tests only parse small valid texts; backtracking blow-up shows on malformed nested input.',
 [S+'parser.rs',S+'parser/expression.rs',S+'parser/object.rs',S+'parser/block.rs',S+'parser/string.rs'],[('alternatives of attribute','lib/src/parser.rs attribute'),('alternatives of expression/body_element','lib/src/parser')],
 ['allocations performed per parse as a deterministic work measure'])
p('C26','Every failure is reported as the right kind of error with the right detail',
 'Invalid Unicode escapes are reported as invalid code points quoting the offending text, other syntax errors as parse errors, read failures as I/O errors carrying the original cause, non-UTF-8 input as such, merge conflicts naming the key and the kinds involved, and trailing text after a stand-alone expression quoting exactly that text. Deserialization passes parse errors on unchanged and otherwise names the repeated key or name, the expected and actual tuple length, or the integer range exceeded. Converting low-level parse errors to library errors preserves severity, the number of context entries and the input each refers to.',
 ['inputs'],'every failing input and every low-level error value',
 'A few error messages are tested.',
 [S+'errors.rs',S+'macros.rs',S+'parser/expression.rs',S+'serde/de.rs'],[('Error::from_err*, make_custom_err*','lib/src/errors.rs'),('map_err!, map_err_str!','lib/src/macros.rs')],
 ['variants and payloads of returned errors'])
p('C27','Each building-block parser consumes exactly its own construct',
 'Every public sub-parser (identifier, number, boolean, null, string, heredoc, tuple, object, expression, attribute, labels, one-line and multi-line block, body, comments and whitespace) succeeds exactly when a construct of its kind starts the input and returns that construct together with precisely the unconsumed rest of the input, independent of what follows beyond the look-ahead its grammar needs.',
 ['inputs'],'every construct followed by every continuation text, and every near-miss',
 'Tests check a few fixed remainders.',
 [S+'parser/'+x+'.rs' for x in ('string','tuple','object','block','whitespace','attribute','number')],[('public named parsers','lib/src/parser')],
 ['(remaining, value) of each parser against an independent reference'])
p('C28','Trees built through constructors equal trees parsed from equivalent text',
 'A syntax tree or value tree assembled through the public constructors, conversions and collection traits is equal to the tree parsed from text denoting the same document, and comparing trees of different documents yields unequal. Element kind tests and unwrapping return the part that was put in, and unwrapping as the other kind panics instead of returning something else.',
 ['inputs'],'every abstract document, pairs of equal and different documents',
 'Tests compare fixed trees only.',
 [S+'parser/expression.rs',S+'parser/block.rs',S+'parser/body.rs',S+'parser/object.rs',S+'value.rs'],[('From/FromIterator/new_* constructors','lib/src/parser/expression.rs, lib/src/parser/block.rs, lib/src/value.rs'),('BodyElement accessors','lib/src/parser/body.rs')],
 ['== between constructed and parsed trees'])
p('C29','A result depends on its input alone, not on history, threads or surroundings',
 'Parsing, converting, merging or deserializing a text gives the same result whenever, however often and on whichever thread it is done, after and while any other texts, accepted or refused, are processed, whether the text stands alone or is a slice of a longer buffer, and whether or not the program takes the library\'s log records.',
 ['inputs','histories','schedules'],'every sequence of calls on related texts, every order of them, concurrently on several threads; every surrounding of a slice',
 'Every test makes its calls once, in a fresh state and on complete buffers.',
 [S+'parser.rs',S+'value.rs',S+'utils.rs',S+'serde/de.rs'],[('parse_str/parse_slice/parse_reader','lib/src/parser.rs'),('value::from_str/from_reader, merge','lib/src/value.rs'),('serde::from_str','lib/src/serde/de.rs')],
 ['results of repeated, reordered, concurrent and embedded calls'])
p('C30',"No hidden limits: results do not depend on the size of a document's parts",
 'Whatever is true of a small document is true of a large one of the same form: any number of attributes, blocks, labels, elements, entries, lines, escapes, comments, blanks, digits or characters of a name, and nesting (within the stack), is parsed, copied, merged, counted, indexed, read in pieces and deserialized in full, in order and unaltered, and an error anywhere in it is still an error.',
 ['inputs','configurations'],'every part of a document at every multiplicity, length and depth that fits in memory (nesting: in the stack)',
 'Tests use documents of a few lines; buffers, caches, tables and fast paths begin to matter beyond them.',
 [S+'parser.rs',S+'parser/block.rs',S+'parser/string.rs',S+'parser/number.rs',S+'value.rs',S+'serde/de/body.rs'],[('parse_str, parse_reader','lib/src/parser.rs'),('value::from_str, merge','lib/src/value.rs'),('Blocks::new, append','lib/src/parser/block.rs')],
 ['trees and values read from documents with one large part'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
