#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))
R = 'src/util.c'
RD = [('reader (cursor over codepoints or UTF-8)', 'src/util.c:herodotus_read_codepoint, herodotus_reader_init, herodotus_reader_copy')]

p('C01', 'UTF-8 decoding accepts exactly the well-formed sequences',
  'For every byte sequence and length, decoding returns a Unicode scalar value other than the replacement character\'s error use if and only if the first bytes within the length form a well-formed UTF-8 sequence (no overlongs, surrogates or values above U+10FFFF), and then stores exactly the encoded scalar value and returns exactly its 1-4 byte length. Every other non-empty input stores U+FFFD.',
  ['inputs'], 'all byte strings of any length, all len values including SIZE_MAX, cp NULL or not',
  'The tests sample a few dozen byte strings; the 2^32 four-byte prefixes and the length interplay are not covered.',
  ['src/utf8.c'], [('decode table and loop', 'src/utf8.c:grapheme_decode_utf8')],
  observe=['grapheme_decode_utf8 return value and *cp'])
p('C02', 'Decoding ill-formed input consumes the right number of bytes',
  'Decoding returns 0 only for a NULL or zero-length input; for an ill-formed sequence it returns the number of bytes before the first byte that cannot continue it (at least 1, a byte that is no lead byte being consumed alone), counting a complete but overlong, surrogate or out-of-range sequence in full. When the length ends inside a so far plausible multi-byte sequence it returns the announced total length, which is larger than the given length.',
  ['inputs'], 'all byte strings, all len values including SIZE_MAX',
  'The tests hold a handful of malformed strings per lead byte; every combination of position and length is needed for resynchronisation to be guaranteed.',
  ['src/utf8.c'], [('error returns', 'src/utf8.c:grapheme_decode_utf8')],
  observe=['grapheme_decode_utf8 return value'])
p('C03', 'UTF-8 encoding is exact, total and all-or-nothing',
  'For every 32-bit codepoint the encoder returns the length of its UTF-8 form (that of U+FFFD for surrogates and values above U+10FFFF) whatever the buffer is, and writes exactly those bytes if and only if the buffer is non-NULL and the given length is large enough. Otherwise no byte is written.',
  ['inputs'], 'all 2^32 codepoint values, all buffers and lengths',
  'Unit tests encode five codepoints.',
  ['src/utf8.c'], [('encode table and loop', 'src/utf8.c:grapheme_encode_utf8')],
  observe=['grapheme_encode_utf8 return value and buffer'])
p('C04', 'Input is never read outside its bounds',
  'No function of the segmentation, case and UTF-8 interface reads an element of its input at or beyond the given length, or beyond the terminating NUL when the length is SIZE_MAX, and none dereferences a NULL input.',
  ['inputs'], 'all inputs, lengths, encodings (codepoint and UTF-8), including truncated trailing sequences',
  'Tests run on well-padded literals without sanitizers, so an over-read by one goes unnoticed.',
  ['src/util.c', 'src/utf8.c', 'src/case.c', 'src/line.c', 'src/word.c', 'src/sentence.c', 'src/character.c'],
  RD + [('decoder length checks', 'src/utf8.c:grapheme_decode_utf8')],
  observe=['every load from the caller\'s input array'])
p('C05', 'Output buffers are never overrun',
  'Case conversion never writes an element of its output at or beyond the given output length and nothing at all when the output is NULL, and the encoder never writes beyond the given length.',
  ['inputs'], 'all inputs, output lengths (0, too short, exact, too long), expanding mappings, both encodings',
  'Tests use outputs with ample room or one truncation length each.',
  ['src/util.c', 'src/case.c', 'src/utf8.c'],
  [('writer', 'src/util.c:herodotus_write_codepoint, herodotus_writer_nul_terminate')],
  observe=['every store through the caller\'s output pointer'])
p('C06', 'The library is freestanding, stateless and reentrant',
  'No library function modifies any object with static storage duration, allocates memory, recurses, or calls anything outside the library except the memory primitives a freestanding compiler may emit. Calls therefore never influence each other except through caller-provided memory.',
  ['histories', 'schedules'], 'all call histories and all thread interleavings of calls on distinct memory',
  'Tests call functions one after the other in one thread and link against a hosted libc.',
  ['src/bidirectional.c', 'src/case.c', 'src/character.c', 'src/line.c', 'src/sentence.c', 'src/utf8.c', 'src/util.c', 'src/word.c'],
  [('const tables, automatic state', 'src/*.c')], observe=['stores, call targets and linkage of the compiled library'])
p('C07', 'Inputs passed as const are never modified',
  'No public function stores through, or through any pointer derived from, an argument it receives as pointer to const.',
  ['inputs'], 'all inputs and all call paths',
  'Tests do not compare inputs before and after; const can be cast away.',
  ['src/bidirectional.c', 'src/case.c', 'src/line.c', 'src/word.c', 'src/sentence.c', 'src/character.c', 'src/utf8.c', 'src/util.c'],
  [('const-correct readers', 'src/util.h:HERODOTUS_READER')], observe=['stores and their pointer provenance'])
SEG = 'Break properties are those of Unicode 15.0.0; codepoints above U+10FFFF have the default property.'
p('C08', 'Character breaks follow the UAX #29 grapheme cluster rules',
  'The character-break function returns the offset of the first extended grapheme cluster boundary (UAX #29 rules GB1-GB999, Unicode 15.0.0) after the start of the text, or the length of the text when there is none. '+SEG,
  ['inputs'], 'all codepoint sequences of any length',
  'The official test file samples pairs and short strings with one representative per class.',
  ['src/character.c', 'src/util.c', 'gen/character.c'],
  [('transition tables', 'src/character.c:grapheme_is_character_break'), ('loop', 'src/character.c:next_character_break')],
  observe=['grapheme_next_character_break'])
p('C09', 'Word breaks follow the UAX #29 word boundary rules',
  'The word-break function returns the offset of the first word boundary (UAX #29 rules WB1-WB999, Unicode 15.0.0) after the start of the text, or the length of the text when there is none. '+SEG,
  ['inputs'], 'all codepoint sequences of any length, including arbitrarily long runs of Extend/Format/ZWJ',
  'The official test file samples short strings with one representative per class.',
  ['src/word.c', 'src/util.c', 'gen/word.c'],
  [('rules', 'src/word.c:next_word_break'), ('two-window scanner', 'src/util.c:proper_init, proper_advance')],
  observe=['grapheme_next_word_break'])
p('C10', 'Sentence breaks follow the UAX #29 sentence boundary rules',
  'The sentence-break function returns the offset of the first sentence boundary (UAX #29 rules SB1-SB998, Unicode 15.0.0) after the start of the text, or the length of the text when there is none. '+SEG,
  ['inputs'], 'all codepoint sequences of any length, with unbounded terminator sequences and lookahead',
  'The official test file holds about 500 short strings; the rules carry unbounded left and right context.',
  ['src/sentence.c', 'src/util.c', 'gen/sentence.c'],
  [('terminator level state', 'src/sentence.c:sentence_skip_shift_callback'), ('rules', 'src/sentence.c:next_sentence_break')],
  observe=['grapheme_next_sentence_break'])
p('C11', 'Line breaks follow the UAX #14 rules',
  'The line-break function returns the offset of the first line break opportunity (UAX #14 rules LB1-LB31 of Unicode 15.0.0, with the tailored regular-expression number rule of section 8.2 example 7) after the start of the text, or the length of the text when there is none. '+SEG,
  ['inputs'], 'all codepoint sequences of any length',
  'The official test file samples short strings with one representative per class.',
  ['src/line.c', 'src/util.c', 'gen/line.c'],
  [('rules and retained state', 'src/line.c:next_line_break')], observe=['grapheme_next_line_break'])
p('C12', 'Property lookups match the Unicode 15.0.0 data for every codepoint',
  'Codepoints with equal Unicode 15.0.0 property values (grapheme, word, sentence and line break classes with the refinements the rules refer to) are treated alike by the segmentation functions, and codepoints with different values that some rule distinguishes are told apart. Every codepoint above U+10FFFF is treated like one with the default value.',
  ['inputs'], 'all codepoints 0..0xFFFFFFFF',
  'Tests touch one representative per class, so a wrong range or an index slip in the tables is invisible.',
  ['gen/util.c', 'gen/character.c', 'gen/word.c', 'gen/sentence.c', 'gen/line.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c'],
  [('two-stage tables', 'gen/util.c:properties_generate_break_property')], observe=['class partition seen by each segmentation function'])
p('C13', 'Case conversion applies the Unicode 15.0.0 full case mappings',
  'Upper- and lowercase conversion replaces every codepoint by its full Unicode 15.0.0 case mapping (UnicodeData and unconditional SpecialCasing), in order; codepoints without a mapping and values above U+10FFFF are copied unchanged. A capital sigma is lowercased to final or non-final sigma as the Final_Sigma condition demands.',
  ['inputs'], 'all codepoint sequences of any length',
  'Tests convert a dozen strings.',
  ['src/case.c', 'gen/case.c', 'gen/util.c', 'src/util.c'],
  [('conversion loop', 'src/case.c:to_case'), ('mapping tables', 'gen/case.c')], observe=['grapheme_to_uppercase, grapheme_to_lowercase'])
p('C14', 'Final_Sigma is decided by the surrounding cased letters',
  'In lowercase conversion U+03A3 becomes U+03C2 exactly when it is preceded by a cased letter and any run of case-ignorable characters and not followed by any run of case-ignorable characters and a cased letter (case-ignorable taking precedence when skipping on the right), and U+03C3 otherwise.',
  ['inputs'], 'all contexts of any length on both sides',
  'Tests hold two sigma strings.',
  ['src/case.c'], [('final_sigma_level', 'src/case.c:to_case')], observe=['grapheme_to_lowercase'])
p('C15', 'Bidirectional class, bracket and mirror data match Unicode 15.0.0',
  'For every codepoint the bidirectional class, the bracket type and pair identity (canonically equivalent brackets being identified) and the mirrored counterpart used by the library are those of Unicode 15.0.0.',
  ['inputs'], 'all codepoints 0..0xFFFFFFFF',
  'The conformance tests use one representative per class and a few bracket pairs, no mirroring.',
  ['gen/bidirectional.c', 'src/bidirectional.c'], [('tables', 'gen/bidirectional.c'), ('lookups', 'src/bidirectional.c:get_bidi_property, get_bidi_bracket_off, get_mirror_offset')],
  observe=['preprocessed data and reordered output'])
p('C16', 'Break functions return a usable offset',
  'Every next-break function returns 0 exactly for a NULL or empty input (or one without a complete codepoint in UTF-8) and otherwise an offset between 1 and the length of the text, never beyond the terminating NUL and, for UTF-8, always at the end of a decoded sequence.',
  ['inputs'], 'all inputs, both encodings, all lengths including SIZE_MAX',
  'Iterating callers loop forever or overrun when a single input violates this; tests sample.',
  ['src/util.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c'], RD, observe=['return values of grapheme_next_*_break*'])
p('C17', 'UTF-8 and codepoint variants agree',
  'Each UTF-8 variant of a segmentation, case conversion or case test function gives the result of its codepoint variant on the decoded text, with offsets and lengths expressed in bytes; a truncated sequence at the end of the input ends the text.',
  ['inputs'], 'all byte strings, valid or not, any length',
  'The UTF-8 variants are hardly tested: break tests run on codepoints only.',
  ['src/util.c', 'src/utf8.c', 'src/case.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c'],
  RD, observe=['*_utf8 functions'])
p('C18', 'Case conversion reports the full length and terminates its output',
  'The returned length of every case conversion is the number of output units of the complete result, independent of the output buffer and its length. The output buffer holds the longest prefix that fits, NUL-terminated whenever its length is non-zero, and in UTF-8 never ends in a partial sequence.',
  ['inputs'], 'all inputs, all output lengths including 0, NULL output',
  'Tests try one or two truncation lengths.',
  ['src/util.c', 'src/case.c'], [('writer', 'src/util.c:herodotus_write_codepoint, herodotus_writer_nul_terminate')],
  observe=['return value and output buffer of grapheme_to_*case*'])
p('C19', 'Case tests agree with case conversion',
  'grapheme_is_lowercase and grapheme_is_uppercase return true exactly when converting the text to that case leaves it unchanged, and report in the optional output the offset of the first codepoint that would change (the text length when there is none).',
  ['inputs'], 'all texts of any length, both encodings, output pointer NULL or not',
  'Tests hold a dozen strings.',
  ['src/case.c'], [('comparison loop', 'src/case.c:is_case')], observe=['grapheme_is_lowercase*, grapheme_is_uppercase*'])
p('C20', 'Titlecase conversion titlecases each word\'s first cased letter',
  'Titlecase conversion splits the text at word breaks; in each word it copies everything before the first cased character, applies the full titlecase mapping to that character and the full lowercase mapping to the rest of the word.',
  ['inputs'], 'all texts of any length',
  'Tests hold four strings.',
  ['src/case.c', 'src/util.c'], [('loop', 'src/case.c:to_titlecase'), ('soft limits', 'src/util.c:herodotus_reader_push_advance_limit')],
  observe=['grapheme_to_titlecase*'])
p('C21', 'The titlecase test agrees with titlecase conversion',
  'grapheme_is_titlecase returns true exactly when titlecase conversion leaves the text unchanged, and reports in the optional output the offset up to which it is titlecase (the text length if all of it is).',
  ['inputs'], 'all texts of any length, both encodings',
  'Tests hold five strings.',
  ['src/case.c'], [('loop', 'src/case.c:is_titlecase')], observe=['grapheme_is_titlecase*'])
p('C22', 'Incremental character break detection carries exact state',
  'Calling grapheme_is_character_break on consecutive codepoint pairs with one carried state, zeroed at the start or after a break, gives exactly the UAX #29 grapheme cluster boundaries of the sequence; a NULL state behaves like a zeroed one.',
  ['inputs', 'histories'], 'all codepoint sequences fed pairwise, all reset points after a break',
  'Tests never call it incrementally across long sequences.',
  ['src/character.c'], [('state word', 'src/character.c:state_serialize, state_deserialize')], observe=['grapheme_is_character_break'])
p('C23', 'Every call terminates',
  'Every segmentation, case and UTF-8 function terminates on every input: each unbounded loop consumes input on every iteration.',
  ['inputs'], 'all inputs of any finite length', 'Tests only see terminating runs of short inputs.',
  ['src/util.c', 'src/case.c', 'src/line.c', 'src/word.c', 'src/sentence.c', 'src/character.c', 'src/utf8.c'],
  [('loops advance a reader', 'src/*.c')], observe=['loop back edges'])
p('C24', 'Bidirectional functions stay within the caller\'s buffers',
  'Paragraph preprocessing, level extraction and line reordering never read beyond the input length (or terminating NUL) and never read or write the output buffer at or beyond the given output length, whatever that length is; a NULL preprocessing output is never dereferenced.',
  ['inputs'], 'all inputs, all output lengths smaller, equal or larger than needed',
  'Tests always pass buffers of 512 entries for short inputs.',
  ['src/bidirectional.c', 'src/util.c'], [('length checks', 'src/bidirectional.c:preprocess, get_line_embedding_levels, grapheme_bidirectional_reorder_line')],
  observe=['loads and stores through caller pointers'])
p('C25', 'Paragraph extent and base direction follow UAX #9 P1-P3',
  'Preprocessing returns the length of the first paragraph (up to and including the first paragraph separator), independent of the output buffer, and resolves its direction to the override if given, else to that of the first L, R or AL outside isolates within that paragraph, else left-to-right.',
  ['inputs'], 'all codepoint sequences, any isolate nesting depth, any override',
  'The conformance tests hold single paragraphs with shallow nesting.',
  ['src/bidirectional.c'], [('paragraph level', 'src/bidirectional.c:get_paragraph_level')], observe=['grapheme_bidirectional_preprocess_paragraph return value and *resolved'])
p('C26', 'Embedding levels follow UAX #9 rules X1-L1',
  'For every paragraph the extracted line embedding levels are those of the Unicode Bidirectional Algorithm (UAX #9, Unicode 15.0.0, rules X1 to I2 and L1), removed characters being reported as -1.',
  ['inputs'], 'all codepoint sequences of any length and nesting depth',
  'BidiTest covers class strings up to length 4.', ['src/bidirectional.c'],
  [('explicit, weak, neutral, implicit passes', 'src/bidirectional.c:preprocess_paragraph, preprocess_isolating_run_sequence')],
  observe=['grapheme_bidirectional_get_line_embedding_levels'])
p('C27', 'Line reordering follows UAX #9 rules L2 and L4',
  'The reordered line consists of the non-removed characters of the line, mirrored where their level is odd, reversed from the highest level to the lowest odd one.',
  ['inputs'], 'all lines with preprocessed data', 'The reordering tests hold short lines.', ['src/bidirectional.c'],
  [('reversal loops', 'src/bidirectional.c:grapheme_bidirectional_reorder_line')], observe=['grapheme_bidirectional_reorder_line'])
p('C28', 'Cost is bounded by the input length',
  'Segmentation and case functions run in time linear in the text they consume, and bidirectional preprocessing does not degrade beyond quadratic.',
  ['inputs'], 'all inputs', 'Benchmarks are not part of the tests.', ['src/util.c', 'src/sentence.c', 'src/bidirectional.c'],
  [('skip readers keep their position', 'src/util.c:proper_advance')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
