#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json
SC='yam-core/src/parsing/scanner.rs'; PA='yam-core/src/parsing/parser.rs'; SO='yam-core/src/parsing/source.rs'
LO='yam-core/src/prelude/loader.rs'; PI='yam-core/src/parsing/parser_iter.rs'; NY='yam-core/src/node/yaml.rs'
ND='yam-core/src/node/yaml_data.rs'; NS='yam-core/src/node/scalar.rs'; PR='yam-core/src/prelude/mod.rs'
DE='yam-serde/src/de.rs'; SE='yam-serde/src/ser.rs'; SL='yam-serde/src/lib.rs'; ES='yam-serde/src/escape_str.rs'
BIG=lambda t: t
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))

p('C01','Every event stream is a well-formed tree traversal',
 'For every input, the events the parser yields before it ends or reports an error are a prefix of StreamStart (DocumentStart node DocumentEnd)* StreamEnd, where a node is one scalar, one alias, or a start event, its children and the matching end event, and a mapping has keys and values in pairs. A parse that ends without an error yields exactly one StreamEnd, as its last event, and then no more items.',
 ['inputs'],'all UTF-8 strings, well-formed or not, with keep_tags on or off',
 'The tests compare event lists for 284 fixed documents; nothing looks at the shape of the stream of an arbitrary, in particular of an ill-formed, input.',
 [PA,SC],[('state machine with an explicit return-state stack',PA+' state_machine, push_state/pop_state'),('token insertion before a simple key',SC+' fetch_value, insert_token'),('block ends on dedent',SC+' unroll_indent')],
 ['Parser as Iterator','Parser::load with an EventReceiver'],
 [('states','stack of states to return to',PA),('state','current production',PA)])
p('C02','Parsing, loading and deserializing always terminate without crashing',
 'For every input string, iterating the parser, loading a tree and deserializing a value each finish after a number of events bounded by the input length, returning a result or an error; they never panic, abort, loop or read outside the input. After an error has been reported, asking for more events is also safe.',
 ['inputs'],'all UTF-8 strings up to several kilobytes, including control bytes, lone carriage returns, NUL bytes, truncated constructs and indentation beyond the lookahead window',
 'Tests contain no hostile or truncated inputs beyond the suite\'s own error cases, and those cases assert nothing once an error appears.',
 [SC,PA,SO,LO,DE],[('each fetch consumes at least one byte or fails',SC+' fetch_next_token, scan_plain_scalar'),('bounds-checked lookahead',SO+' peek_checked, peekz'),('arithmetic on version numbers and escapes',SC+' scan_version_directive_number, resolve_flow_scalar_escape_sequence')],
 ['Parser as Iterator','Yaml::load_from','yam_serde::from_str'])
p('C03','Every event and error carries its true source location',
 'In every span reported with an event, the byte offsets lie within the input with start not after end, starts never move backwards from one event to the next except for empty nodes, and for every marker the line is one plus the number of line breaks before its offset and the column is one plus the number of bytes since the last of them (only the virtual line break appended at end of input may exceed this). The span of a scalar starts at its first character and the span of an alias, scalar or collection indicator covers exactly its own text plus at most following white space; error markers obey the same line and column rule.',
 ['inputs'],'all inputs; all line-break styles, multi-byte text, tabs, comments and multi-line scalars before the location',
 'Only a handful of spans are asserted by any test; the event-list comparison ignores spans entirely.',
 [SC,PA,PR],[('mark updated with every consumed byte',SC+' skip_blank, skip_non_blank, skip_n_non_blank, skip_linebreak, skip_ws_to_eol'),('end mark of plain scalars',SC+' scan_plain_scalar')],
 ['Span in Parser items','YamlError::ScannerErr mark'],
 [('mark','offset, line and column of the read position',SC)])
p('C04','Plain and quoted scalars yield exactly the content YAML gives them',
 'A plain, single-quoted or double-quoted scalar is reported with its own style and with the content the YAML rules assign to its text: line folding (one break becomes a space, n+1 breaks become n newlines), trimming of surrounding white space, doubled single quotes, every double-quote escape including 2-, 4- and 8-digit codes and escaped line breaks, and the end of a plain scalar at ": ", " #" or, inside brackets, a flow indicator. This holds whatever the length of the scalar, in block and flow context, as key or as value.',
 ['inputs'],'all contents over all YAML characters, all escapes, all foldings, any length, every context in which such a scalar may stand',
 'The suite has a few dozen scalars, almost all shorter than the internal 128-byte batch, and each escape appears in at most one document.',
 [SC],[('plain scalar scanner',SC+' scan_plain_scalar'),('quoted scalar scanner',SC+' scan_flow_scalar, consume_flow_scalar_non_whitespace_chars'),('escape decoding',SC+' resolve_flow_scalar_escape_sequence')],
 ['Event::Scalar value and scalar_type'])
p('C05','Block scalars honour style, indentation and chomping',
 'The content of a literal or folded block scalar is its lines stripped of exactly the content indentation (detected from the first non-empty line or given by the indicator), literal lines kept, folded lines joined by the folding rules with more-indented and blank lines preserved, and the final line breaks stripped, clipped or kept as the header says. This holds for any indentation depth, any line length, any number of blank lines, with or without a final newline, at the top level and nested in any collection.',
 ['inputs'],'all headers (style x chomping x indentation indicator x order), contents, indentation widths and nesting contexts',
 'Tests fix some thirty block scalars; indentation beyond the lookahead window, indicators at the top level and scalars cut off by the end of input are sampled at one or two points or not at all.',
 [SC],[('header and body of block scalars',SC+' scan_block_scalar, scan_block_scalar_content_line'),('indentation detection',SC+' skip_block_scalar_first_line_indent, skip_block_scalar_indent')],
 ['Event::Scalar with Literal or Folded style'])
p('C06','Indentation alone determines the structure of block collections',
 'Block sequences and mappings nest exactly as their indentation says: a deeper entry opens a collection, a dedent closes every deeper one, "- " entries may stand at the column of their parent mapping key, compact forms on one line open one collection each, missing keys or values are empty nodes, and an implicit key is recognised only on a single line of at most 1024 characters. The same tree is obtained for every choice of indentation widths that preserves the nesting.',
 ['inputs'],'all trees of block collections to any depth, all indentation widths, compact and indentless forms, explicit and implicit keys, empty nodes',
 'The test documents use a few indentation shapes; the interplay of dedent depth, indentless sequences, explicit keys and pending simple keys is unbounded.',
 [SC,PA],[('indentation stack',SC+' roll_indent, unroll_indent, roll_one_col_indent, unroll_non_block_indents'),('simple keys',SC+' save_simple_key, stale_simple_keys, remove_simple_key'),('block productions',PA+' block_mapping_key, block_mapping_value, block_sequence_entry, indentless_sequence_entry')],
 ['Parser event sequence','Yaml::load_from'],
 [('indents','open indentation levels',SC),('simple_keys','candidate implicit keys per flow level',SC)])
p('C07','Flow collections parse to the tree their brackets and commas describe',
 'Between brackets, commas separate entries and structure is independent of line breaks and of indentation beyond the parent: single-pair mappings inside sequences, omitted keys or values, explicit "?" keys, JSON-like keys with an adjacent ":" and one trailing comma are all recognised, to any nesting depth. Every flow collection yields exactly the entries written, in order.',
 ['inputs'],'all trees of flow collections to any depth and in any spacing, within block collections or on their own',
 'Fixed documents combine few of these features; the tracking of implicit pairs across nested brackets depends on the whole history of the open brackets.',
 [SC,PA],[('flow level and implicit pair tracking',SC+' fetch_flow_collection_start, fetch_flow_collection_end, end_implicit_mapping, fetch_flow_entry'),('adjacent values',SC+' fetch_flow_value, adjacent_value_allowed_at'),('flow productions',PA+' flow_sequence_entry, flow_mapping_key, flow_mapping_value, flow_sequence_entry_mapping_*')],
 ['Parser event sequence','Yaml::load_from'],
 [('implicit_flow_mapping_states','per open sequence: inside an implicit pair or not',SC),('flow_mapping_started','an explicit mapping is open',SC)])
p('C08','An alias always denotes the latest preceding node with that anchor',
 'Every anchored node gets an identifier that is positive and larger than all earlier ones in the stream, and an alias event carries the identifier of the most recent node before it with the same anchor name; an alias to a name not yet defined is an error. When a document is loaded, anchors of earlier documents are not visible, and the alias is replaced by a copy of the anchored node.',
 ['inputs','histories'],'all placements, redefinitions and names of anchors and aliases over all node kinds and documents',
 'Tests use one or two anchors per document; redefinition orders and cross-document visibility are histories the samples do not enumerate.',
 [PA,SC,LO],[('anchor registration and lookup',PA+' register_anchor, parse_node, load (anchors.clear)'),('anchor names',SC+' scan_anchor'),('alias expansion',LO+' insert_new_node, Event::Alias')],
 ['anchor ids in events','loaded trees'],
 [('anchors','name to current id',PA),('anchor_map','id to loaded node',LO)])
p('C09','Tags resolve through the directives of their own document only',
 'A tag on any node is reported resolved: verbatim tags as written, "!!x" through the core prefix unless "%TAG !!" redefines it, "!h!x" through the "%TAG" of the same document, local tags as written, with percent-escapes decoded as UTF-8. All handles declared for a document are in force together, declaring one twice is an error, an undeclared named handle is an error, and declarations end with their document unless tag keeping was requested.',
 ['inputs','histories','configurations'],'all combinations of tag forms, handles, declarations, several documents, with keep_tags on or off',
 'Tests have at most one %TAG per document and never combine several handles, redefinition and document boundaries.',
 [PA,SC],[('tag resolution',PA+' resolve_tag, parser_process_directives, document_end'),('tag scanning',SC+' scan_tag, scan_tag_handle, scan_tag_shorthand_suffix, scan_uri_escapes, scan_tag_prefix, scan_verbatim_tag')],
 ['tag of Scalar, SequenceStart and MappingStart events'],
 [('tags','handle to prefix',PA)])
p('C10','Document boundaries are exactly where markers and directives put them',
 'A stream is split into documents at "---" and "..." at the start of a line and nowhere else: explicit and implicit starts are distinguished, an empty document yields one empty node, comments and blank lines produce none, directives belong to the document that follows and require an explicit start, and state of one document (indentation, open structures, version directive) does not leak into the next.',
 ['inputs','histories'],'all sequences of documents, markers, directives, comments and blank lines, and marker-like text inside every scalar style',
 'Test streams have two or three documents; the tests do not combine marker-like text with every scalar style and context.',
 [SC,PA],[('marker recognition at column one',SC+' process_start, next_is_document_start, next_is_document_end, finish_document'),('document productions',PA+' document_start, explicit_document_start, document_content, document_end'),('directives',SC+' scan_directive, scan_version_directive_value')],
 ['DocumentStart and DocumentEnd events','number of loaded documents'])
p('C11','Scalars resolve to types exactly as the core schema says',
 'An untagged plain scalar loads as null, boolean, integer, float or string exactly by the YAML 1.2 core schema patterns (null, true/false, decimal, 0x and 0o integers, decimal floats, .inf and .nan, each in the listed spellings only), with the value it denotes; quoted and block scalars always load as strings. Integers are those of 64 bits: a larger decimal is a float, a larger hexadecimal or octal a string; a core-schema tag on a plain scalar forces its type or, if the text does not fit, a bad value, and any other tag keeps the resolved value under that tag.',
 ['inputs'],'all scalar texts, all styles, all core tags, integers around the limits of 64 bits',
 'Tests resolve a few typical literals; near misses of each pattern (signs, prefixes, letter case, overflow, dots and exponents) are not enumerated.',
 [NS,ND],[('resolution',NS+' parse_from_cow, parse_from_cow_and_metadata, parse_core_schema_fp'),('tagged values',ND+' value_from_cow_and_metadata')],
 ['Yaml::load_from','YamlScalar::parse_from_cow'])
p('C12','The loaded tree is exactly the tree of events',
 'Loading yields one tree per document, each with precisely the nodes of the event stream: sequences in order, mapping entries as ordered key-value pairs with nothing lost, merged or shifted (whatever the keys are: collections, tagged, duplicated, empty or unresolvable), tags kept around nodes, and aliases replaced by the anchored value. Loading fails exactly when parsing fails.',
 ['inputs'],'all documents, including complex keys, tagged keys, duplicate keys, nested collections, aliases and many documents',
 'The loader has one smoke test without an assertion; everything else tests events.',
 [LO,ND,NY],[('tree building',LO+' on_event, insert_new_node'),('key and document stacks',LO+' key_stack, doc_stack')],
 ['Yaml::load_from, load_single, YamlLoader::load_from_parser'],
 [('doc_stack','open collections',LO),('key_stack','pending keys',LO)])
p('C13','Results depend on the bytes of the input, not on the source that supplies them',
 'Parsing the same bytes through any correct implementation of the input-source trait (whatever its recommended buffer length from 2 up, and whether it overrides or inherits the default helper methods) gives the same events, spans and errors as parsing the string directly. Line breaks written as LF, CRLF or CR are equivalent, changing only offsets.',
 ['inputs','configurations'],'all inputs x conforming sources with buffer lengths from small to large, default or overridden helpers',
 'All tests use the one built-in string source with its default buffer length.',
 [SO,SC],[('default helper methods',SO+' trait Source'),('buffer-length dependent loops',SC+' scan_plain_scalar, skip_block_scalar_indent'),('break normalisation',SC+' skip_linebreak, read_break')],
 ['Parser::new with a custom Source'],hook='the Source trait names SkipTabs, which is exported only under cfg(yam_verif)')
p('C14','All ways of reading a stream deliver the same events',
 'For every input and every interleaving of peeking and advancing, the events consumed are those of plain iteration: peeking never consumes, repeats the same answer, and returns nothing after the end. Pushing events into a receiver (all documents, or one document per call, started at a document boundary) and the flattened iterator over the first document deliver the same nodes in the same order as iteration.',
 ['histories','inputs'],'all interleavings of peek, next and load calls on all inputs',
 'Tests only iterate to the end or call load once; mixed histories of calls are untested.',
 [PA,PI,LO],[('one-event lookahead',PA+' peek, next_event, next_event_impl'),('push interface',PA+' load, load_document, load_node'),('flattened iterator',PI+' next, process_doc')],
 ['Parser::peek, Parser::next_event, Parser::load, ParserIter'],
 [('current','peeked event',PA),('stream_end_emitted','end already returned',PA)])
p('C15','Ill-formed documents are rejected, never silently reinterpreted',
 'A text that violates the YAML structure rules is reported as an error by every reading interface rather than accepted with some other meaning: tabs as indentation, inconsistent dedents, values or keys where none may stand, missing or stray brackets and commas, block structure inside flow, unterminated quotes, bad escapes, content after a document end marker, malformed or repeated directives, multi-line implicit keys, unknown aliases and undeclared handles. No events of the offending construct are delivered after the error is detected.',
 ['inputs'],'all single-fault mutations of well-formed documents of these kinds, in every context',
 'The suite\'s error cases assert nothing when an error occurs and cover one context per rule.',
 [SC,PA],[('scanner errors',SC+' (all YamlError::new_str sites)'),('parser errors',PA+' (all YamlError::new_str sites)')],
 ['Parser items','Yaml::load_from result','yam_serde::from_str result'])
p('C16','Typed deserialization agrees with the document',
 'Deserializing a string into a Rust type yields the value the document denotes, for every nesting of sequences, tuples, maps, structs, options, enums and scalars: no element is dropped, duplicated, shifted or taken from a neighbouring collection, and a document whose shape or scalar does not fit the type is an error. Sized integers are also read from quoted text; an alias, and ill-formed text up to the end of the value, is always an error, and only the first document is read.',
 ['inputs','programs'],'all type shapes over these constructors to bounded depth x all matching and near-matching documents in block and flow style',
 'Tests deserialize flat examples; nesting of options, structs and enums inside sequences and maps is not exercised.',
 [DE,PI],[('one-event lookahead',DE+' next_el, skip, skip_doc, peek_null'),('sequence and map access',DE+' SeqCollection, deserialize_seq, deserialize_map'),('enum access',DE+' deserialize_enum, Enum')],
 ['yam_serde::from_str'],
 [('last_event/has_peeked','lookahead of the deserializer',DE)])
p('C17','Serialized scalars read back as the same value',
 'Serializing a boolean, integer, float, character or string value, or a unit value where the formatter has a text for null, yields exactly one YAML document that reads back as the same value of the same type, whatever the characters in the string and whatever formatter settings are used.',
 ['inputs','configurations'],'all supported scalar values, all string contents, all formatter settings',
 'Tests compare the output for a few strings and never read the output back.',
 [SE,ES],[('scalar formatting',SE+' serialize_*'),('string escaping',ES+' escape_double_quotes')],
 ['yam_serde::to_pretty_string'])
p('C18','Node accessors are consistent views of the same value',
 'For every loaded or constructed node exactly the accessors of its kind succeed and return its content, predicates and node type agree with them, indexing by position or key returns the element or the value (never the key) of the first matching entry, and a write through a mutable accessor or index is seen by every later read and changes nothing else.',
 ['inputs','histories'],'all node kinds and shapes, all accessors, all sequences of reads and writes',
 'No test writes through an index or a mutable accessor.',
 [NY,ND,PR],[('accessors',NY+' YamlDocAccess for Yaml'),('indexing',NY+' Index, IndexMut'),('node type',ND+' get_type')],
 ['YamlDocAccess methods, Index and IndexMut of Yaml'])
p('C19','Comments, blank lines and spacing never change the meaning',
 'Inserting or removing comments, blank lines, trailing white space or separation spaces where YAML allows them leaves the parsed events unchanged except for locations. A "#" begins a comment only after white space or at the start of a line, and never inside quoted or block scalar content.',
 ['inputs'],'all documents x all admissible insertions',
 'Each test document has one fixed layout.',
 [SC,SO],[('separation and comments',SC+' skip_to_next_token, skip_ws_to_eol, skip_yaml_whitespace'),('shared helper',SO+' shared_skip_ws_to_eol')],
 ['Parser event sequence'])
p('C20','Every way of reading the same text agrees',
 'Loading all documents, loading a single one, receiving events and iterating with or without peeking accept or reject a text together: each fails exactly if the event stream fails inside the part it reads, and none of them panics or hangs. The loaders return one tree per document, receivers get every event, the document iterator the events of the first document, and nothing is deserialized out of a document whose root node is incomplete.',
 ['inputs'],'all texts x all public entry points that read a text',
 'Each test reads its text through one entry point, and a text that one of them accepts and another rejects or reads differently is a parser differential.',
 [PA,LO,PI,PR,NY,DE,SL],[('receiver and iterator forms of the parser',PA+' load, load_document, load_node, peek, next'),('loader entry points',LO+' load_from, load_single_from_parser, load_single_source'),('document iterator',PI+' next, process_doc'),('deserializer',DE+' from_str')],
 ['Parser::load / Parser iterator / ParserIter','YamlLoader::load_* and Yaml::load_*','yam_serde::from_str'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title'])); assert x['statement'].count('. ')<=3
print(len(P))
