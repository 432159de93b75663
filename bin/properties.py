#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, qtext, why, files, mech, observe, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))


PA, GR, DI, ER = 'src/parser/mod.rs', 'src/parser/base/grammar.rs', 'src/parser/base/directive.rs', 'src/parser/error.rs'
BA, YA, NO, DU = 'src/parser/base/mod.rs', 'src/yaml.rs', 'src/node.rs', 'src/dumper.rs'
DE, SE, SN, SM = 'src/serde/de.rs', 'src/serde/ser.rs', 'src/serde/ser_node.rs', 'src/serde/mod.rs'

p('C01', 'Parsing is total: every byte string ends in documents or an error',
  'For every byte string and either alias mode, loading it terminates and returns either the list of documents or an error. It never panics, never overruns the input, never loops without progress.',
  'every input document as raw bytes (well-formed or not, UTF-8 or not), both alias modes',
  'The tests parse about forty hand-written documents that are nearly all well formed; a crash or an endless loop needs one particular malformed tail, and the space of byte strings is not sampled by any of them.',
  [PA, GR, BA, DI, ER], [('cursor primitives and back-tracking', BA), ('scalar and indent sub-parsers', GR), ('structure parser', PA)],
  ['yaml_peg::parse', 'parser::Loader::parse', 'parser::Loader::cyclic_mode'])
p('C02', 'Plain scalars resolve to the type and value their text says',
  'An unquoted scalar resolves to null, boolean, integer, float or string exactly according to its text (core-schema spellings, decimal/octal/hexadecimal integers, decimal and scientific floats), with the text preserved. The same text resolves to the same value wherever it stands: at the root, in block or flow collections, as a value or as a key.',
  'every scalar text over the bounded lengths and alphabets, in every context',
  'Tests check about twenty spellings; the property is about every text, and about the boundaries between the types (1 / 1. / 1e1 / 0x1 / 1a / -.inf / - ).',
  [PA, GR], [('scalar resolution order', PA + ' scalar_term'), ('number sub-parsers', GR), ('plain strings', GR + ' string_plain')],
  ['yaml_peg::parse', 'Node::yaml'])
p('C03', 'Numeric conversions return the exact value or the position',
  'Converting an integer or float node to a number returns exactly the value its text denotes, or an error carrying the position of that node when the value does not fit. A float is the nearest representable value of its text. Nothing is wrapped or truncated silently, and no conversion panics.',
  'every number text the parser accepts and every number built from Rust values',
  'Unit tests convert three small literals; overflow boundaries, radix prefixes and signs are quantified over all digit strings.',
  [NO, YA], [('as_int/as_float/as_number', NO), ('to_i64/to_f64', YA)], ['Node::as_int', 'Node::as_float', 'Node::as_number'])
p('C04', 'Equality and hashing of nodes obey their laws',
  'Comparing any two nodes answers without panicking and is reflexive, symmetric and transitive; nodes that are equal have equal hashes, so a map lookup finds every equal key. Numbers are equal when their values are, everything else when kind and content (in order) are; position and tag never influence equality or hash.',
  'every pair and triple of nodes',
  'The tests compare a few literals of the same spelling; the laws quantify over all pairs, including numbers in different spellings and numbers out of range.',
  [YA, NO], [('PartialEq/Hash of the data', YA), ('PartialEq/Hash of the node', NO)], ['Node == Node', 'Hash', 'Map::get'])
p('C05', 'Container and type access agree with the data',
  'Every typed accessor succeeds exactly on its own type and returns the stored content; on every other type it returns an error carrying the position of the node. Key and index access find exactly the entries present, and a default is used exactly when the key is absent. A node built or changed in memory holds exactly the content, position and tag it was given.',
  'every node kind, every key, every index, every position',
  'Doc tests show one success and one failure per accessor; the property is the full table over kinds, keys, indexes and positions.',
  [NO], [('accessors', NO)], ['Node::as_*', 'Node::get', 'Node::get_default', 'Node::get_ind', 'Index', 'Node::new', 'Node::set_repr', 'Node::from', 'FromIterator', 'node!'])
p('C06', 'Dumping a tree and parsing it back gives the same tree',
  'For every list of documents built in memory, dumping and parsing the result succeeds and gives the same documents: same structure, order, types, values and tags.',
  'every tree: kinds, nesting of sequences, maps, complex keys, strings with any content, tags, several documents',
  'Tests dump two fixed documents; the layout rules interact (first entry, nesting level, kind of parent, string content) in combinations that are not enumerated by them.',
  [DU, PA, GR], [('block layout and quoting', DU), ('parser', PA)], ['yaml_peg::dump', 'yaml_peg::parse'])
p('C07', 'Reformatting is idempotent: parse, dump, parse is stable',
  'For every document that parses, dumping the result and parsing it again succeeds and yields equal documents.',
  'every accepted document over the bounded alphabets',
  'Tests reformat two documents; the property quantifies over all accepted texts, whose parse results include shapes no hand-built tree would have.',
  [DU, PA, GR], [('dumper', DU), ('parser', PA)], ['yaml_peg::dump', 'yaml_peg::parse'])
p('C08', 'Serializing a value to a node and back returns the value',
  'For every serializable Rust value, conversion to a node and back to the type yields the same value: integers of every width, floats, characters, strings, options, tuples, sequences, maps, structs and every kind of enum variant.',
  'every value of the listed types',
  'Tests convert one struct with small values; extreme values, all variant kinds and empty containers are not covered.',
  [SE, DE, SN], [('serializer', SE), ('deserializer', DE)], ['serde::to_node', 'Deserialize from Node'])
p('C09', 'Deserialization never invents a value',
  'Deserializing any node into a type yields either the value the node denotes or an error carrying the position of the offending node. A number out of range of the type, a wrong kind or a malformed enum is an error, never a wrapped value and never a panic.',
  'every node, every target type',
  'Tests try a handful of kinds for string, char and float targets only.',
  [DE], [('deserializer methods', DE)], ['serde::from_str', 'Deserialize from Node', 'SerdeError'])
p('C10', 'Serializing to text and back returns the value',
  'For every serializable Rust value, writing it as YAML text and reading it back yields the same value. In particular a string stays that string whatever its content.',
  'every value of the listed types, strings with arbitrary content',
  'Tests round-trip one struct whose strings are plain words.',
  [SE, DE, DU], [('to_string = serialize + dump', SE), ('from_str = parse + deserialize', DE)], ['serde::to_string', 'serde::from_str'])
p('C11', 'An alias stands for its anchored node, or is an error',
  'When aliases are resolved while loading, every alias yields the data of the node defined under that anchor earlier in the same document (position and tag are its own). An alias that has no such definition is an error, a second definition of an anchor is an error, and anchors of one document are not visible in another.',
  'every arrangement of anchors and aliases in documents',
  'Tests have one document with anchors; order, scope and duplication are not varied.',
  [PA, GR], [('anchor recording and lookup', PA)], ['Loader::parse', 'Loader::get_anchors'])
p('C12', 'Kept aliases resolve to what direct loading gives',
  'Loading with aliases kept yields the same tree in which every alias node names an anchor, and the recorded anchors of that document give for each name the node it was put on. Replacing the aliases through the recorded anchors gives exactly what direct loading gives, and dumping the documents with their anchors and loading them again gives the same documents and anchors. An anchor in front of a map and its first key belongs to the map, unless the map begins on a line of its own.',
  'every document accepted by direct loading',
  'One test walks one cyclic document by hand; the correspondence between the two modes is never compared.',
  [PA, NO], [('cyclic mode', PA), ('as_anchor', NO)], ['Loader::cyclic_mode', 'Loader::get_anchors', 'Node::as_anchor'])
p('C13', 'Errors and positions translate to the right line and column',
  'The message for a position between two characters shows the line that contains it (lines end with a line feed or carriage return + line feed), one-based line and column numbers counted in characters, and a caret under that column. The message of a failed parse is such a message for a position in the input.',
  'every document and every position in it, either newline style',
  'One test checks one message; positions at line starts, line ends, ends of input and behind multi-byte characters are not tried.',
  [BA, ER, 'src/indicator.rs'], [('indicated_msg', 'src/indicator.rs'), ('error construction', ER)], ['yaml_peg::indicated_msg', 'PError display'])
p('C14', 'Every node carries the position where its text begins',
  'The position of every parsed node is the byte offset at which its content begins in the document, after anchor and tag, whether that is on the line of the indicator or on a later line. An empty node has the position of its place.',
  'every accepted document, every node in it',
  'Tests check positions of two nodes.',
  [PA, BA], [('indicator in scalar_node', PA)], ['Node::pos'])
p('C15', 'Quoted strings yield their content',
  'A single-quoted string yields its content with doubled quotes reduced; a double-quoted string yields its content with the supported escapes replaced. Line breaks inside fold to a space, blank lines to newlines, and nothing else of the content changes; the content is always a string whatever it looks like.',
  'every content over the bounded alphabets, both quote kinds, every context',
  'Tests have six quoted strings.',
  [GR], [('string_quoted', GR), ('escape', GR)], ['yaml_peg::parse'])
p('C16', 'Block scalars yield their lines under the chomping rule',
  'A literal block keeps its lines and breaks, a folded block joins lines with spaces and keeps blank lines as breaks; the chomping indicator decides the trailing newlines. The block ends where the indentation ends and what follows is parsed as the next entry.',
  'every block content over the bounded alphabets, every chomping indicator, every context',
  'Tests have four block strings.',
  [GR], [('string_wrapped', GR), ('chomp', GR)], ['yaml_peg::parse'])
p('C17', 'Block and flow structure gives back the written tree',
  'A tree written in block style, in flow style or in a mixture is parsed to exactly that tree, with order kept. A block collection that begins on a line of its own may be indented freely; one that begins on the line of its dash is two deeper than the dash.',
  'every tree within the bounds, every style choice and indentation per collection',
  'Tests parse a few documents; nesting combinations of sequences, maps, complex keys and flow collections are not enumerated.',
  [PA, GR], [('seq/map/seq_flow/map_flow', PA), ('ind/ind_define', GR)], ['yaml_peg::parse'])
p('C18', 'Document streams split exactly at their markers',
  'A stream of documents parses to exactly those documents in order, whether they are separated by start markers alone or ended by end markers as well. Directives are accepted before the first document only, an invalid or repeated version is an error, and unknown directives are ignored.',
  'every stream of documents within the bounds',
  'Two tests have streams of two documents.',
  [PA, DI], [('parse/doc/doc_end', PA), ('directive', DI)], ['yaml_peg::parse'])
p('C19', 'Tags are expanded and attached to their own node',
  'Every tag notation (local, secondary, declared handle, verbatim) is expanded by the rules and declared prefixes and attached to the node it precedes; nodes without a tag report the default tag of their kind. An undeclared handle is an error.',
  'every tag notation, handle, name and kind of node',
  'Tests have one document with four tags.',
  [GR, PA, NO, DI], [('tag', GR), ('directive_tag', DI), ('Node::tag', NO)], ['Node::tag'])
p('C20', 'Layout that means nothing changes nothing',
  'Newline style, comments, blank lines, a leading document marker, trailing newlines and trailing spaces never change what a document parses to.',
  'every document within the bounds and every such change',
  'No test compares two layouts of one document; the property relates pairs of inputs.',
  [PA, GR, BA], [('gap/comment/nl/ws', GR)], ['yaml_peg::parse'])
p('C21', 'Sub-parsers consume exactly what they match',
  'A sub-parser that reports a match has consumed exactly the text it matched, and one that reports a mismatch in a scope leaves the cursor where it was; the matched text is the consumed text. Repetition bounds are respected, and the position counts everything consumed before.',
  'every input, every primitive, every option',
  'Tests call none of the primitives except through documents.',
  [BA], [('cursor primitives', BA)], ['parser::Parser methods'])
p('C22', 'The reference kind never changes the result',
  'Loading the same document with either reference-counting kind, or twice with the same kind, gives the same documents, errors and positions.',
  'every input document',
  'Tests use one kind; the two are compared on no document.',
  ['src/repr.rs', PA], [('Repr', 'src/repr.rs')], ['parse::<RcRepr>', 'parse::<ArcRepr>'])
p('C23', 'Flexible field types accept exactly their two forms',
  'A list-or-single field yields the listed values for a sequence and the one value otherwise; an optional field yields its value, and a default for the boolean form; a stringified field yields the text of any scalar. Anything else is an error.',
  'every value of these fields',
  'Each type has one doc test.',
  ['src/serde/inline_list.rs', 'src/serde/optional.rs', 'src/serde/stringify.rs'],
  [('InlineList', 'src/serde/inline_list.rs'), ('Optional', 'src/serde/optional.rs'), ('Stringify', 'src/serde/stringify.rs')],
  ['serde::InlineList', 'serde::Optional', 'serde::Stringify'])
p('C24', 'Parsing loses nothing: accepted content appears in the result',
  'When a document is accepted, every piece of text in it outside comments, markers and overwritten duplicate keys appears in the parsed documents; text that cannot be placed makes the parse fail instead.',
  'every accepted document over the bounded alphabets',
  'Tests compare the result of well-formed documents; silently dropped content shows up only on inputs nobody thought to write down.',
  [PA, GR], [('structure parser', PA), ('string sub-parsers', GR)], ['yaml_peg::parse'])

with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
