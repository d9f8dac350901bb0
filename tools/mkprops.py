#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe or [], hook_needed=None)))
C='src/mfast/coder/'
ENC=[C+'encoder/fast_encoder.cpp',C+'encoder/encoder_field_operator.cpp',C+'encoder/fast_ostream.h',C+'encoder/fast_ostream_inserter.h',C+'encoder/encoder_presence_map.h']
DEC=[C+'decoder/fast_decoder.cpp',C+'decoder/decoder_field_operator.cpp',C+'decoder/fast_istream.h',C+'decoder/fast_istream.cpp',C+'decoder/fast_istream_extractor.h',C+'decoder/decoder_presence_map.h',C+'decoder/decoder_presence_map.cpp']
ENC2=[C+'encoder_v2/fast_encoder_core.h',C+'encoder_v2/fast_encoder_core.cpp',C+'encoder_v2/fast_ostream_inserter.h']
DEC2=[C+'decoder_v2/fast_decoder_core.h',C+'decoder_v2/fast_decoder_core.cpp',C+'decoder_v2/fast_istream_extractor.h']
DICT=('previous value of every dictionary entry','undefined, empty or an assigned value; kept identically by encoder and decoder','value_storage reached through field_instruction prev_value()')

p('P01','Encode then decode returns the message, for every message history',
  'When messages are encoded one after another with the interpreting encoder and the bytes are decoded in the same order by the interpreting decoder built from the same templates, every decoded message has the same template and the same value, or absence, in every field as the message encoded. Each decode consumes exactly the bytes its message was encoded to. This holds for every sequence of messages whose values the template can express (a tail value is not shorter than the value it is built on; ASCII strings are ASCII and longer ones do not start with NUL), whatever operators, types, presence, initial values and nesting the templates use.',
  ['inputs','histories','configurations'],'every template (field types x operators x presence x initial value x dictionary sharing, groups, sequences, nested templates) and every sequence of expressible messages, with resets at any point',
  'The tests encode a handful of literal messages per template, mostly one or two messages deep; an operator state reached only by a longer history (absent then equal to initial, empty then default, ...) or a combination of operator and presence is sampled, not covered.',
  ENC+DEC,[('encoder operators',C+'encoder/encoder_field_operator.cpp'),('decoder operators',C+'decoder/decoder_field_operator.cpp'),('message walk',C+'encoder/fast_encoder.cpp, '+C+'decoder/fast_decoder.cpp')],
  ['fast_encoder::encode return value and buffer','fast_decoder::decode result, advanced first pointer'],[DICT])
p('P02','The generated-code coder follows the same wire protocol as the interpreter',
  'The compile-time coders working on generated message types produce, for every message history, a stream that any conforming decoder for the same templates reads back as the same messages, and they decode every well-formed stream to the messages it denotes. An application can therefore put a generated-code coder at one end and an interpreting coder at the other. All four pairings give the same messages and consume the same bytes.',
  ['inputs','histories','configurations'],'every template set accepted by the code generator, every sequence of expressible messages, each pairing of encoder and decoder generation',
  'The two implementations are separate template code bases; the tests give each its own literal examples and never compare them over histories.',
  ENC2+DEC2+['src/mfast/ext_ref.h','src/fast_type_gen/inl_gen.cpp'],[('generated field visitation','src/fast_type_gen/inl_gen.cpp'),('v2 operators',C+'encoder_v2/fast_encoder_core.h, '+C+'decoder_v2/fast_decoder_core.h')],
  ['fast_encoder_v2::encode','fast_decoder_v2<N>::decode'],[DICT])
p('P03','Encoders emit minimal, conforming FAST bytes',
  'Every byte stream an encoder produces is a conforming FAST 1.1 encoding of the message under the current dictionary: stop-bit entities are terminated, integers and presence maps carry no redundant bytes (unless overlong presence maps are allowed), and a field whose value the operator can imply is not sent. The encoding of a message is never longer than the one the FAST operator rules give.',
  ['inputs','histories'],'every value of every field type (all 32/64-bit integers, every delta, every string) under every operator state',
  'Tests compare bytes for about a hundred literals; boundary values (sign groups, extreme deltas, 2^32, 2^63) and minimality in each dictionary state are a universal claim.',
  ENC+ENC2,[('stop-bit output',C+'encoder/fast_ostream.h'),('operator elision',C+'encoder/encoder_field_operator.cpp')],['encoded bytes'],[DICT])
p('P04','Decoders accept every well-formed stream and give the values it denotes',
  'For every well-formed FAST stream for a template set, including ones this library never emits (redundant presence bits, values sent although implied, any split between delta or tail and base, overlong presence maps), decoding yields exactly the field values the FAST 1.1 rules define and advances exactly past the message. What a decoder returns depends only on the templates and the bytes decoded since the last reset, not on the buffers, chunking or message objects used earlier.',
  ['inputs','histories'],'every well-formed byte stream and every position in a stream of messages',
  'Tests decode either the library\'s own output or a few literal byte strings per operator.',
  DEC+DEC2,[('stop-bit input',C+'decoder/fast_istream.h'),('operators',C+'decoder/decoder_field_operator.cpp')],['fast_decoder::decode','fast_decoder_v2::decode'],[DICT])
p('P05','Operator dictionary states obey the FAST transition rules, errors included',
  'The previous value of each dictionary entry moves between undefined, empty and assigned exactly as the FAST 1.1 operator rules say, at the encoder and at the decoder, for every type and presence. Where the rules demand a dynamic error (no initial value for a mandatory field, empty previous value, bad subtraction length), decoding reports it as an exception with that error instead of inventing a value.',
  ['inputs','histories'],'every (operator, type, presence, initial value, dictionary state, transfer) combination reached by any history',
  'The operator tests set a dictionary state by hand and take one step; the reachable state graph over several messages is not enumerated.',
  [C+'encoder/encoder_field_operator.cpp',C+'decoder/decoder_field_operator.cpp',C+'encoder_v2/fast_encoder_core.h',C+'decoder_v2/fast_decoder_core.h'],[('operator tables',C+'decoder/decoder_field_operator.cpp'),('codec_helper',C+'common/codec_helper.h')],['next encoded bytes','next decoded values','thrown error code'],[DICT])
p('P06','Dictionary scope and keys decide which fields share a previous value',
  'Two fields share one previous value exactly when their dictionary (global, template, type or named), their application type where relevant, and their key (or qualified name) coincide, across templates, groups, sequences and nested templates; fields that do not share never influence each other. Sharing between fields of different types is rejected when a coder is built.',
  ['configurations','histories'],'every assignment of dictionary, ns, typeRef and key attributes over a template set, every message order',
  'One dictionary test inspects a few pointers for one XML file.',
  [C+'common/dictionary_builder.cpp',C+'common/dictionary_builder.h','src/mfast/xml_parser/field_builder.cpp','src/mfast/xml_parser/field_op.cpp'],[('dictionary_builder',C+'common/dictionary_builder.cpp')],['bytes/values of later messages','error when constructing coder'],[DICT])
p('P07','A reset returns every dictionary entry to undefined at both ends',
  'After a reset, requested by the caller or by a template marked as resetting, encoder and decoder treat every dictionary entry exactly as freshly constructed ones do, for the message being processed and all later ones, including a reset caused by a nested message. Whether a message names its template depends only on the template active before it. Messages before the reset have no influence after it.',
  ['histories'],'every history before the reset, every reset position, both coder generations',
  'Tests reset at one point after one or two messages.',
  [C+'common/template_repo.h',C+'encoder/fast_encoder.cpp',C+'decoder/fast_decoder.cpp',C+'encoder_v2/fast_encoder_core.h',C+'decoder_v2/fast_decoder_core.cpp'],[('reset_values',C+'common/template_repo.h')],['bytes and values after reset'],[DICT])
p('P08','Presence maps carry one bit per field that needs one, at every size',
  'In every segment (message, group, sequence element) the presence map holds exactly one bit per field occurrence that requires one, in template order, for any number of fields, and encoding it never disturbs neighbouring bytes; this holds with overlong presence maps allowed or not. A decoder reads maps of any length, treating missing trailing bits as zero.',
  ['inputs','configurations'],'every number of presence bits from 0 to several words, every bit pattern, every nesting of segments, both overlong settings',
  'Tests use maps of a few bits; widths across 7/14/56/63/64 bits and patterns of trailing zeros in nested segments are not enumerated.',
  [C+'encoder/encoder_presence_map.h',C+'decoder/decoder_presence_map.h',C+'decoder/decoder_presence_map.cpp',C+'encoder/fast_ostreambuf.cpp','src/mfast/instructions/group_instruction.cpp'],[('encoder_presence_map',C+'encoder/encoder_presence_map.h'),('segment size computation','src/mfast/instructions/group_instruction.cpp')],['encoded bytes','decoded presence'])
p('P09','Groups, sequences and nested templates keep structure, count and order',
  'Sequences arrive with the same number of elements in the same order, whatever the operator on their length; optional groups and sequences keep the difference between absent and empty; nested template references arrive bound to the same template, and the decoder is back in the enclosing template afterwards. Fields with the same name in different segments or templates are not confused.',
  ['inputs','histories','configurations'],'every nesting of groups, sequences and static/dynamic template references, every length history',
  'Tests cover nesting depth one or two with one or two elements.',
  [C+'encoder/fast_encoder.cpp',C+'decoder/fast_decoder.cpp',C+'encoder_v2/fast_encoder_core.h',C+'decoder_v2/fast_decoder_core.h','src/mfast/instructions/sequence_instruction.cpp','src/mfast/instructions/templateref_instruction.cpp'],[('sequence and group visitation',C+'decoder/fast_decoder.cpp')],['decoded structure'])
p('P10','Malformed or truncated input never escapes the input buffer',
  'For any byte string, a decoder either returns a message using only bytes of the given range or throws; it never reads outside the range, crashes or reports consumption beyond the end. A proper prefix of a valid encoding is never accepted as that message. The error reported for an unknown template, an illegal dictionary use or a premature end is the documented exception.',
  ['inputs','fault_sequences'],'every byte string of every length, at every dictionary state',
  'A few literal truncations are tested; the set of byte strings is infinite.',
  DEC+DEC2+[C+'decoder/fast_istreambuf.h'],[('bounds checks',C+'decoder/fast_istreambuf.h, '+C+'decoder/fast_istream.h')],['exceptions','memory around the input buffer'])
p('P11','Encoding into any buffer gives the same bytes or a clean overflow error',
  'The bytes an encoder produces do not depend on the kind, size or previous content of the output buffer. If a fixed buffer is too small (for the encoding and the trailing presence-map bytes it may drop) the encoder throws and never writes outside it; a growing buffer keeps the bytes it already held and appends the same encoding.',
  ['inputs','configurations'],'every message and every buffer size from one byte upward, fixed and growing buffers, any existing content',
  'Tests use one ample fixed size.',
  [C+'encoder/fast_ostreambuf.cpp',C+'encoder/fast_ostreambuf.h',C+'encoder/resizable_fast_ostreambuf.h',C+'encoder/fast_encoder.cpp'],[('overflow handling',C+'encoder/fast_ostreambuf.cpp')],['buffer content','bytes around the buffer','exception'])
p('P12','Messages are values: copies are deep, equal and independent',
  'A message, group or sequence copied, assigned or moved has the same field values as its source, and later changes to either are never visible in the other. Setting, omitting and re-setting fields gives exactly the value or absence last written, and a new message holds each field\'s initial value or absence as its template says.',
  ['histories','inputs'],'every interleaving of set, omit, resize, copy, assign, move and destroy over several message objects',
  'Tests copy a few fixed messages.',
  ['src/mfast/composite_type.h','src/mfast/aggregate_ref.h','src/mfast/field_mref.h','src/mfast/instructions/group_instruction.cpp','src/mfast/instructions/sequence_instruction.cpp','src/mfast/instructions/templateref_instruction.cpp','src/mfast/nested_message_ref.h'],[('copy_construct_value / destruct_value','src/mfast/instructions/*.cpp')],['field values read back'])
p('P13','Every allocated block is released exactly once to its allocator',
  'Message objects, sequences, strings and coders obtain memory only from the allocator they were given, never write outside a block, and return each block exactly once with its size by the time they are destroyed, whatever history of mutations, copies, encodes and decodes they went through, failing ones included. (An allocator that itself runs out of memory is outside this property.)',
  ['histories','fault_sequences'],'every history of mutations, copies, encodes, decodes (including failing ones) and destructions',
  'A debug allocator is attached to a few tests only.',
  ['src/mfast/allocator.h','src/mfast/allocator_utils.h','src/mfast/malloc_allocator.cpp','src/mfast/vector_ref.h','src/mfast/instructions/sequence_instruction.cpp','src/mfast/instructions/group_instruction.cpp','src/mfast/value_storage.cpp'],[('allocator interface','src/mfast/allocator.h')],['calls on a user supplied allocator'])
p('P14','The arena allocator hands out disjoint, stable, aligned memory',
  'Blocks obtained from an arena since its last reset never overlap, are suitably aligned and at least as large as requested; their content is untouched until the reset, including when another block grows. Growing a block keeps its content, and after a reset the arena can serve any sequence of requests again; repeating the same requests between resets settles at a fixed amount of memory. A request that cannot be met throws std::bad_alloc and leaves the arena usable.',
  ['histories','inputs'],'every sequence of allocate, reallocate, deallocate and reset with any sizes, any chunk size',
  'One test makes about ten fixed requests.',
  ['src/mfast/arena_allocator.h','src/mfast/arena_allocator.cpp','src/mfast/allocator_utils.h'],[('chunk list','src/mfast/arena_allocator.cpp')],['returned pointers','block content'])
p('P15','String and vector fields behave as plain value vectors',
  'For every sequence of assign, append, insert, erase, resize, reserve, clear, pop, element write and shallow-assign operations, a string, byte-vector or integer-vector field reads back as the same operations on an ordinary sequence would give, in size, content, order and comparisons, and its C string is terminated at its end. Absent and empty remain different.',
  ['histories','inputs'],'every sequence of operations with any positions, counts and contents',
  'Tests execute about fifty fixed operations.',
  ['src/mfast/vector_ref.h','src/mfast/string_ref.h','src/mfast/allocator_utils.h'],[('vector_mref_base','src/mfast/vector_ref.h')],['size(), operator[], c_str(), comparisons'])
p('P16','Resizing sequences keeps elements and gives fresh ones the initial state',
  'Resizing, reserving, assigning or swapping a sequence keeps every surviving element\'s value and gives each element first exposed a freshly initialised state as the template says; elements are independent of each other, and a length or presence change is always visible to readers and coders.',
  ['histories','inputs'],'every sequence of resize, reserve, element mutation, assign and swap operations at any nesting',
  'Tests resize once or twice.',
  ['src/mfast/sequence_ref.h','src/mfast/sequence_ref.cpp','src/mfast/instructions/sequence_instruction.cpp'],[('reserve/resize','src/mfast/sequence_ref.cpp')],['element values'])
p('P17','JSON output is valid JSON denoting exactly the message',
  'The JSON written for any message is a syntactically valid JSON text whose members are exactly the present fields in template order with their values: integers and decimals exact, strings equal after unescaping, byte vectors as two hexadecimal digits per byte (grouped by dashes like a UUID when there are 16 bytes), sequences as arrays and groups as objects.',
  ['inputs','configurations'],'every message, in particular every byte value in strings and byte vectors, every decimal',
  'Tests print three or four fixed messages.',
  ['src/mfast/json/json_encode.cpp','src/mfast/decimal_ref.h','src/mfast/output.h'],[('json_visitor','src/mfast/json/json_encode.cpp')],['text written by json::encode'])
p('P18','JSON input sets exactly the fields the document gives, or is rejected',
  'Decoding a JSON object into a message sets each named field to the value given (any member order, whitespace and escape form), makes null members absent, ignores members the template does not know, whatever they contain, and leaves no trace of them; a document that is not of the expected form is rejected (lenient spellings of numbers and white space may be accepted, never with a wrong value). Decoding what JSON output produced restores the message, template references aside and as far as decimal digits written out fit 64 bits.',
  ['inputs'],'every JSON document, valid or not, for every template',
  'Tests decode a few fixed documents.',
  ['src/mfast/json/json_decode.cpp'],[('decode_visitor','src/mfast/json/json_decode.cpp')],['json::decode result, field values'])
p('P26','Tag masks select what JSON output embeds and leaves out, and JSON input takes verbatim',
  'With a JSON object mask, a byte vector field whose tag shares a bit with the mask is written as the JSON text it holds, unquoted and unchanged, and is read from an object member by storing exactly the bytes of that object in place of the old value; anything else than an object or null is rejected. With an ignore mask, exactly the fields of groups, messages and sequence elements whose tag shares a bit with it are left out. All other fields, and all fields when no mask or no shared bit is given, are written and read as without masks, and the surrounding text remains valid JSON.',
  ['inputs','configurations'],'every template with tags, every pair of masks, every message and document',
  'Tests use a single tagged field and one mask, with a fresh message.',
  ['src/mfast/json/json_encode.cpp','src/mfast/json/json_decode.cpp'],[('json_visitor_with_ignore_tag','src/mfast/json/json_encode.cpp'),('skip_matching','src/mfast/json/json_decode.cpp')],['text written by json::encode','json::decode result, field values'])
p('P19','A template document means what the FAST schema rules say',
  'Loading a template document yields, for each template, the fields in document order with the type, presence, operator, initial value, key, dictionary, id and namespace that the FAST rules derive, including inherited attributes, named definitions, type references and static template references. Documents that violate the rules (unknown type or template, missing constant value, wrong operator for a type, and so on) are rejected.',
  ['configurations'],'every template document built from the supported elements and attributes, in any nesting',
  'Tests load about ten documents and look at a few attributes.',
  ['src/mfast/xml_parser/templates_builder.cpp','src/mfast/xml_parser/field_builder.cpp','src/mfast/xml_parser/field_op.cpp','src/mfast/xml_parser/field_op.h','src/mfast/xml_parser/FastXMLVisitor.cpp'],[('templates_builder','src/mfast/xml_parser/templates_builder.cpp')],['instruction tree of the loaded templates'])
p('P20','Generated code describes the same templates as the loaded document',
  'For every template document the code generator accepts, the generated descriptions are the same as those obtained by loading the document at run time: same templates, fields, order, types, operators, presence, initial values, keys, dictionaries and presence-map sizes. The generated code compiles, and every accessor named after a field (get_, try_get_, set_, omit_) or after an element of an enum or set (is_, as_, has_, set_, unset_) reaches exactly that field or element.',
  ['configurations','programs'],'every accepted template document',
  'Tests compile a fixed set of documents and spot-check a few attributes.',
  ['src/fast_type_gen/cpp_gen.cpp','src/fast_type_gen/hpp_gen.cpp','src/fast_type_gen/inl_gen.cpp','src/fast_type_gen/codegen_base.cpp'],[('cpp_gen','src/fast_type_gen/cpp_gen.cpp')],['instruction tree of generated templates'])
p('P21','Decimals keep their exact value through every operation',
  'Assigning, normalising, comparing, printing and parsing decimal fields never changes or confuses the number they denote: mantissa times ten to the exponent; a field whose exponent is constant holds the value at that exponent. Text read from templates, JSON or streams is read exactly or rejected, ordering agrees with the numbers, and equality compares mantissa and exponent.',
  ['inputs'],'every mantissa and exponent pair, every decimal text',
  'Tests check a few literals.',
  ['src/mfast/decimal_ref.h','src/mfast/decimal_ref.cpp','src/mfast/value_storage.h'],[('decimal_value_storage','src/mfast/decimal_ref.h')],['mantissa(), exponent(), value(), text'])
p('P22','Message equality is exactly field-wise equality',
  'Two messages (or groups, sequences, fields) compare equal exactly when they have the same shape and, field by field, both are absent or both present with equal values; equality is reflexive and symmetric.',
  ['inputs'],'every pair of messages of one template, differing in any one place or none',
  'Tests compare a few pairs.',
  ['src/mfast/field_comparator.h','src/mfast/field_visitor.h','src/mfast/vector_ref.h','src/mfast/int_ref.h','src/mfast/decimal_ref.h'],[('field_comparator','src/mfast/field_comparator.h')],['operator=='])
p('P23','Decoded messages stay valid as long as their token is not reused',
  'A message returned by a decoder keeps its values until the next decode with the same token, whatever is decoded with other tokens; when tokens are used, changing a returned message never affects later decoding. Without tokens the previously returned message may be overwritten, but decoding stays correct.',
  ['histories'],'every interleaving of decodes over tokens and modifications of returned messages',
  'Tests do not interleave tokens or modify decoded messages.',
  [C+'decoder_v2/fast_decoder_core.h',C+'decoder_v2/fast_decoder_core.cpp',C+'fast_decoder_v2.h'],[('per-token message storage',C+'decoder_v2/fast_decoder_core.h')],['values read from earlier messages'])
p('P24','A failed encode or decode does not poison later work after a reset',
  'After an encode or decode call ends in an exception at any point, encoding or decoding with a forced reset behaves exactly as with a fresh coder, and earlier returned bytes and messages are unaffected.',
  ['fault_sequences','histories'],'every point at which a call can fail (overflow position, truncation position, dynamic error), followed by any messages',
  'Tests stop at the exception.',
  [C+'encoder/fast_encoder.cpp',C+'decoder/fast_decoder.cpp',C+'encoder_v2/fast_encoder_core.cpp',C+'decoder_v2/fast_decoder_core.cpp'],[('force_reset handling',C+'common/template_repo.h')],['bytes and values after the failure'])
p('P25','Views enumerate exactly the first present alternative of each view field',
  'Iterating a view over a message yields, in order, one entry per view field: the first of its listed references that is present in the message, resolved through groups and sequence indices, and no access is made outside the message.',
  ['inputs','configurations'],'every view definition and every message, in particular every pattern of absent groups and short sequences',
  'Tests use one template with a few messages.',
  ['src/mfast/view_iterator.cpp','src/mfast/view_iterator.h','src/mfast/xml_parser/view_info_builder.cpp'],[('view_iterator_helper','src/mfast/view_iterator.cpp')],['fields yielded by the iterator'])
p('P27','Threads which share only template descriptions do not disturb one another',
  'Encoders, decoders, messages, JSON conversion and template loading used in different threads at the same time, where the threads have nothing in common but template descriptions (loaded beforehand or generated), each behave exactly as if their thread were alone: same bytes, same values, same errors, whatever the interleaving, and without a data race.',
  ['schedules','inputs','histories'],'every interleaving of any histories in any number of threads, over shared loaded or generated descriptions',
  'No test uses a second thread.',
  [C+'common/dictionary_builder.cpp',C+'common/template_repo.h','src/mfast/json/json_decode.cpp','src/mfast/json/json_encode.cpp','src/mfast/field_instructions.h','src/mfast/field_instructions.cpp'],
  [('per-coder copies of descriptions and dictionaries',C+'common/dictionary_builder.cpp'),('functions without static state','src/mfast/json/json_decode.cpp')],['bytes, values and errors of each thread; ThreadSanitizer'])
out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for r in P: f.write(json.dumps(r) + '\n')
print(len(P))
