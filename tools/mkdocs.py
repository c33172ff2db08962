#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (kept here so that they stay in step)."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why=why, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], observe=observe, tech=tech, note=note,
                  state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])]))


prop('C01', 'UTF-8 decoding accepts exactly well-formed UTF-8 and resynchronises',
     'Decoding any bytes yields the code point and length of the well-formed UTF-8 sequence they start with, and otherwise U+FFFD together with the length of the maximal ill-formed part to skip (never overlong forms, surrogates or values above U+10FFFF). '
     'When the bytes end inside a so far valid sequence the reported length exceeds what was given, and an empty or absent input is told apart; no byte beyond the given length (or beyond the NUL, when the length is left open) is looked at. '
     'Decoding a whole buffer step by step therefore terminates and yields the sequence of code points the Unicode standard prescribes.',
     ['inputs'], 'every byte string, every length given for it, with and without an output pointer',
     'The tests hold 33 hand-picked byte strings; the decoder branches on lead byte, each continuation byte and the length left, so the space is over 2^32 sequences times their truncations.',
     ['src/utf8.c', 'grapheme.h'],
     [('lead byte table and lower/upper bounds per length', 'src/utf8.c: lut'), ('decoder with continuation scan', 'src/utf8.c: grapheme_decode_utf8')],
     ['return value and code point of grapheme_decode_utf8', 'stepwise decoding of a buffer'],
     'exhaustive and random generated byte strings against a reference decoder (differential), exact-size buffers under ASan',
     'All 1, 2 and 3 byte strings, 4 byte strings around every boundary, all truncations, plus random buffers; agreement with an independently written decoder (Unicode ch. 3 table 3-7 and the documented return values). Exploration, not proof: longer buffers are sampled.')

prop('C02', 'UTF-8 encoding is valid, bounded by the buffer and inverse to decoding',
     'Encoding any code point writes its unique shortest UTF-8 form and returns its length, and decoding this form gives the code point back; a surrogate or a value above U+10FFFF is encoded as U+FFFD. '
     'The needed length is returned, and nothing is written past the given space, however small it is or if there is no buffer at all.',
     ['inputs'], 'every 32 bit value as code point, every buffer size from 0 up, no buffer',
     'The tests encode 11 code points into a buffer that fits; they cannot cover the 2^32 values nor the buffers that are too small.',
     ['src/utf8.c'], [('length and bit distribution tables', 'src/utf8.c: lut'), ('encoder', 'src/utf8.c: grapheme_encode_utf8')],
     ['return value and buffer of grapheme_encode_utf8'],
     'exhaustive generation of all code points plus random 32 bit values; round-trip and reference encoder',
     'All 0x110000 code points and the borders above, each with buffers of 0..5 bytes between canaries; random values beyond.')

prop('C03', 'No call reads or writes outside its buffers or has undefined behaviour',
     'For every public function, every input and every combination of lengths and buffer sizes a caller may give (including 0, absent buffers, sizes too small, unterminated input with a length and malformed text), memory outside the given input and output ranges is neither read nor written and no undefined behaviour occurs. '
     'Input buffers are never modified and bytes of an output behind the reported end are left alone.',
     ['inputs', 'configurations'], 'all public functions times arbitrary text, malformed UTF-8, arbitrary 32 bit values, lengths and destination sizes',
     'The tests always pass large enough static buffers, so that an overrun by one element neither faults nor shows; most of them use one fixed destination size.',
     ['src/utf8.c', 'src/util.c', 'src/case.c', 'src/bidirectional.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c'],
     [('bounded reader with limits', 'src/util.c: herodotus_read_codepoint'), ('bounded writer', 'src/util.c: herodotus_write_codepoint, herodotus_writer_nul_terminate'),
      ('range check in front of every table lookup', 'src/*.c: get_*_prop(erty), get_case_offset, get_mirror_offset'), ('destlen checks', 'src/bidirectional.c: preprocess, get_line_embedding_levels, grapheme_bidirectional_reorder_line')],
     ['AddressSanitizer/UBSan reports', 'canaries around each output', 'input compared before and after'],
     'generated API calls on exact-size heap buffers under ASan and UBSan, canaries and input comparison; coverage-guided fuzzing in the thorough tier',
     'Every function of grapheme.h is driven with well-formed, malformed and extreme input, sizes around every boundary; overruns inside a same-object struct are invisible to ASan, the canaries cover the outputs only.')

prop('C04', 'Grapheme cluster boundaries are those of the Unicode standard',
     'For every text, the boundaries between user-perceived characters that are reported one after another are exactly those of the extended grapheme cluster rules of Unicode 15.0 (UAX #29, GB1 to GB999). '
     'This includes long runs of regional indicators, Hangul syllables, prepended and spacing marks and emoji joiner sequences of any length.',
     ['inputs'], 'every sequence of code points (including unassigned ones, surrogates and values out of range)',
     'The official break test samples 602 short strings with one sample code point per class; longer contexts (parity of regional indicators, emoji with many extenders) and other members of a class are not reached.',
     ['src/character.c', 'gen/character.c'],
     [('flag automaton and property lookup', 'src/character.c: grapheme_is_character_break'), ('break property tables', 'gen/character.c')],
     ['successive grapheme_next_character_break'],
     'generated class strings (all short ones, long random ones, mutations of official tests) against a reference model of UAX #29 (differential)',
     'Rule-by-rule reference from the vendored UCD 15.0, self-tested against all official tests; every class string up to a length bound exhaustively, with varying members; longer text sampled.',
     [('state', 'flags carried between neighbouring pairs', 'src/character.c: struct character_break_state')])

prop('C05', 'Word boundaries are those of the Unicode standard',
     'For every text, the word boundaries reported one after another are exactly those of the word rules of Unicode 15.0 (UAX #29, WB1 to WB999), including rules that look across ignorable characters and two letters ahead.',
     ['inputs'], 'every sequence of code points (including unassigned ones, surrogates and values out of range)',
     'The official break test samples 1823 short strings; chains of ignorable characters, lookahead at the end of the text and regional indicator parity over long runs are not reached.',
     ['src/word.c', 'gen/word.c', 'src/util.c'],
     [('rules', 'src/word.c: next_word_break'), ('skip of ignorable characters', 'src/util.c: herodotus proper')], ['successive grapheme_next_word_break'],
     'generated class strings against a reference model of UAX #29 (differential)',
     'As C04, with the word rules.')

prop('C06', 'Sentence boundaries are those of the Unicode standard',
     'For every text, the sentence boundaries reported one after another are exactly those of the sentence rules of Unicode 15.0 (UAX #29, SB1 to SB998), including unbounded lookahead behind an ambiguous full stop and terminators followed by closing punctuation, spaces and separators in any amount.',
     ['inputs'], 'every sequence of code points (including unassigned ones, surrogates and values out of range)',
     'The official break test samples 502 short strings; histories with several terminators, long lookahead and ignorable characters in every position are not reached (one such defect was found and repaired).',
     ['src/sentence.c', 'gen/sentence.c', 'src/util.c'],
     [('terminator state machine', 'src/sentence.c: sentence_skip_shift_callback'), ('rules', 'src/sentence.c: next_sentence_break')], ['successive grapheme_next_sentence_break'],
     'generated class strings against a reference model of UAX #29 (differential)',
     'As C04, with the sentence rules.', [('aterm level, sterm level', 'progress behind a terminator', 'src/sentence.c: struct sentence_break_state')])

prop('C07', 'Line break opportunities are those of the Unicode standard',
     'For every text, the line break opportunities reported one after another are exactly those of the line breaking rules of Unicode 15.0 (UAX #14, LB1 to LB31, with the number tailoring of section 8.2 example 7 that the official tests use), mandatory breaks included.',
     ['inputs'], 'every sequence of code points (including unassigned ones, surrogates and values out of range)',
     'The official break test samples 7654 strings of mostly two classes; multi-step number expressions, combining marks behind spaces and joiners, and members of a class other than the sample are not reached (five such defects were found and repaired).',
     ['src/line.c', 'gen/line.c', 'gen/util.c'],
     [('rules and state kept over the line', 'src/line.c: next_line_break'), ('class resolution (LB1) and East Asian width refinement', 'gen/line.c')], ['successive grapheme_next_line_break'],
     'generated class strings against a reference model of UAX #14 (differential)',
     'As C04, with the line rules; the reading of LB25 is the one of the official test file.')

prop('C08', 'Stateful cluster-break queries agree with segmentation for any history',
     'Feeding a text pair by pair to the stateful break query, starting from a cleared state, reports a boundary exactly where the segmentation has one, and the state is cleared after a boundary is reported so that the next segment starts afresh. '
     'Interleaving any number of texts with a state each, starting over at any boundary, or passing no state does not influence other answers; without a state the answer is that of a cleared one.',
     ['histories', 'inputs'], 'every sequence of operations (feed, restart, jump, query without state) over any number of states and texts',
     'The tests call the stateful query once per fixed pair through the segmentation function only; interleavings, restarts and missing states are never exercised.',
     ['src/character.c'], [('serialised state in 16 bits', 'src/character.c: state_serialize, state_deserialize'), ('reset on break', 'src/character.c: grapheme_is_character_break')],
     ['return value and state word of grapheme_is_character_break'],
     'stateful generation of interleaved histories against a model automaton and the reference segmentation',
     'Model-based histories with up to 3 texts walked at once; every class string up to a bound exhaustively.')

prop('C09', 'UTF-8 segmentation agrees with code point segmentation of the decoded text',
     'For every byte string, well-formed or not, the segments found in UTF-8 text are the images of the segments found in the decoded code points (each ill-formed part counting as one U+FFFD), so no boundary is ever reported inside a well-formed sequence. '
     'A truncated sequence at the end of a text of given length is set apart as the last segment without being decoded.',
     ['inputs'], 'every byte string times the four kinds of segmentation, with explicit length or NUL-terminated',
     'The tests compare a handful of byte strings with valid encodings; malformed and truncated sequences are only tested at one position.',
     ['src/util.c', 'src/utf8.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c'],
     [('common reader for both representations', 'src/util.c: herodotus_read_codepoint'), ('progress on truncated input', 'src/util.c: herodotus_reader_ensure_progress')],
     ['grapheme_next_*_break_utf8 versus grapheme_next_*_break'],
     'metamorphic relation between the two representations over generated well-formed, mutated and random bytes',
     'Oracle is an independent decoder plus the code point functions (checked themselves in C04 to C07).')

prop('C10', 'NUL-terminated and explicit-length input give the same results',
     'For every text without NUL, giving it NUL-terminated with open length yields the same result and output as giving its exact length, for segmentation, case conversion and case detection, in both representations. '
     'With open length nothing behind the NUL is examined, with a given length a NUL inside is ordinary text, and a converted string is NUL-terminated within its buffer whenever the buffer has any room.',
     ['inputs', 'configurations'], 'every text times every public function with a length parameter times the two ways of giving it',
     'The tests use one of the two ways for each text and never place hostile content behind the terminator.',
     ['src/util.c'], [('SIZE_MAX as terminator', 'src/util.c: herodotus_read_codepoint'), ('termination', 'src/util.c: herodotus_writer_nul_terminate')],
     ['results with SIZE_MAX versus strlen'],
     'metamorphic relation over generated text with hostile bytes behind the terminator, exact-size buffers under ASan',
     'A truncated UTF-8 sequence right at the end is left out of the equality (the library documents it differently for the two ways) and covered by C09/C11.')

prop('C11', 'Segmentation always makes progress and partitions the text',
     'Every segmentation call on non-empty input consumes at least one unit and never more than there are, an empty or absent input yields 0, and calling repeatedly partitions any text in at most as many steps as it has units. '
     'Cutting a text at any reported boundary leaves the boundaries before it in place, and in UTF-8 no segment ends inside a well-formed sequence. '
     'Runs of any length of any kind of character are handled, in reasonable time and without exhausting the stack.',
     ['inputs'], 'every text, every representation, texts of up to hundreds of thousands of units',
     'No test measures termination or large input; a caller loop over a call that returns 0 never ends (one such defect was found and repaired).',
     ['src/util.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c'],
     [('reader limits', 'src/util.c: herodotus_reader_next_codepoint_break'), ('progress on truncated input', 'src/util.c: herodotus_reader_ensure_progress')],
     ['return values over a partition loop'],
     'invariant over generated texts and partition histories, watchdog for hangs',
     'Progress, bounds, prefix relations and sizes up to 400000 units; the quadratic lookahead of SB8 is inherent in repeated calls and bounded in the generator.')

prop('C12', 'Lower and upper casing follow the full Unicode mappings',
     'For every text, the lowercase and uppercase conversions yield exactly the full case conversion of Unicode 15.0: default and language-independent special mappings, including one-to-many mappings and the Final_Sigma context with any number of case-ignorable characters on both sides, where a character that is both cased and case-ignorable counts as cased before the sigma and as case-ignorable behind it. '
     'Code points without a mapping, unassigned or out of range are passed through unchanged.',
     ['inputs'], 'every sequence of code points',
     'The tests convert a few dozen short strings; there are over 2800 mappings and the sigma context is unbounded (one defect in it was found and repaired).',
     ['src/case.c', 'gen/case.c'], [('conversion with sigma context', 'src/case.c: to_case'), ('mapping tables', 'gen/case.c')], ['output of grapheme_to_lowercase, grapheme_to_uppercase'],
     'every code point alone and in context, and generated text, against a reference model of section 3.13 (differential)',
     'Reference from UnicodeData, SpecialCasing and DerivedCoreProperties 15.0.')

prop('C13', 'Case conversion reports the needed size and never overfills the output',
     'A conversion returns the number of units the full result needs regardless of the space given; with enough space the result is complete and terminated by NUL. '
     'With less space the output holds the longest prefix of whole characters that leaves room for the terminating NUL, nothing behind the given size is written, and asking without a buffer first and converting into exactly that size plus one always succeeds.',
     ['inputs', 'configurations'], 'every text times every conversion times every destination size from 0 to beyond the result, and no destination',
     'The tests use a destination that is large enough, apart from a few fixed sizes.',
     ['src/util.c', 'src/case.c'], [('bounded writer', 'src/util.c: herodotus_write_codepoint'), ('truncation and NUL', 'src/util.c: herodotus_writer_nul_terminate')],
     ['return value and destination content for each size'],
     'generated text times all destination sizes with canaries, against the full conversion (metamorphic)',
     'All sizes from 0 to the result plus 3 for each generated text.')

prop('C14', 'Case detection is true exactly for text unchanged by the conversion',
     'A text is reported as lower-, upper- or titlecase exactly when the corresponding conversion leaves it unchanged. '
     'The length that is reported is the number of units at the start that stay unchanged and appear in place, the whole length when the answer is yes; the empty text has every case.',
     ['inputs'], 'every text, three cases, both representations, with and without the length output',
     'The tests query a few short strings; agreement with conversion is never related.',
     ['src/case.c'], [('detection', 'src/case.c: is_case, is_titlecase')], ['grapheme_is_* versus grapheme_to_*'],
     'metamorphic relation between detection and conversion over generated text, and a reference model',
     'The conversions are checked by C12 and C16 against their own references.')

prop('C15', 'Case functions give the same result for UTF-8 and for code points',
     'For every byte string, conversion and detection in UTF-8 yield the encoded result of the code point functions on the decoded text, with lengths in bytes; each ill-formed part acts as one U+FFFD.',
     ['inputs'], 'every byte string times six functions',
     'The tests check the two representations with different samples; ill-formed input next to word boundaries is not tested (one defect was found and repaired).',
     ['src/case.c', 'src/util.c'], [('common implementation over a reader and writer', 'src/case.c: to_case, to_titlecase, is_case, is_titlecase')],
     ['grapheme_*_utf8 versus the code point functions'],
     'metamorphic relation over generated well-formed, mutated and random bytes',
     'A truncated sequence at the very end of text of given length is left out of the conversion, as pinned by the existing behaviour.')

prop('C16', 'Titlecasing capitalises the first cased letter of each word only',
     'For every text, the titlecase conversion splits it at the standard word boundaries, maps the first cased character of each word with the full titlecase mapping and the rest of the word with the full lowercase mapping (Final_Sigma included), and leaves everything before it unchanged.',
     ['inputs'], 'every sequence of code points',
     'The tests titlecase a few short strings; one-to-many mappings, words without cased characters and sigma contexts across words are not reached.',
     ['src/case.c', 'src/word.c', 'src/util.c'], [('per word conversion with limits', 'src/case.c: to_titlecase'), ('soft and hard limits', 'src/util.c: herodotus_reader_push_advance_limit')],
     ['output of grapheme_to_titlecase'],
     'generated text against a reference model of section 3.13 R3 (differential)',
     'Composed of the reference word segmentation and the reference mappings.')

prop('C17', 'Embedding levels follow the Unicode bidirectional algorithm',
     'For every paragraph and every requested direction, the resolved embedding levels are exactly those of the Unicode 15.0 bidirectional algorithm (UAX #9, rules X1 to I2 with BD16 bracket pairing), including nesting beyond the depth limit, overflowing embeddings and isolates, and more brackets than fit the pairing stack.',
     ['inputs', 'configurations'], 'every sequence of code points times three directions',
     'The official tests are exhaustive only for strings of up to four classes; nesting over the limits, many brackets and long isolating run sequences are not reached (five such defects were found and repaired).',
     ['src/bidirectional.c', 'gen/bidirectional.c'],
     [('explicit levels X1 to X8', 'src/bidirectional.c: preprocess_paragraph'), ('isolating run sequences', 'src/bidirectional.c: ir_init, ir_advance'), ('weak and neutral types', 'src/bidirectional.c: preprocess_isolating_run_sequence'), ('bracket pairs', 'src/bidirectional.c: preprocess_bracket_pairs')],
     ['levels of the whole paragraph as one line'],
     'generated class strings, nestings and bracket texts against a reference model of UAX #9 (differential)',
     'The reference is rule-by-rule and self-tested with the official BidiTest and BidiCharacterTest files.',
     [('per code point word', 'class, preserved class, bracket, level, paragraph level, visited', 'src/bidirectional.c: state_lut')])

prop('C18', 'Paragraph splitting and direction depend on that paragraph only',
     'Preprocessing reports the length of the first paragraph (up to and including the separator) and its direction: the requested one, or that of its first strong character outside of isolates (left-to-right if none). '
     'Text behind the paragraph and the size of the output change neither length nor direction, the levels of a paragraph do not depend on what follows it, and a smaller output holds the result of no more than it can and is never overrun.',
     ['inputs', 'configurations'], 'every text of one or more paragraphs times three directions times output sizes from none to beyond the text',
     'The tests use one paragraph per case and an output that fits; only a few cases look at the resolved direction (three such defects were found and repaired).',
     ['src/bidirectional.c'], [('paragraph length and level', 'src/bidirectional.c: preprocess, get_paragraph_level')], ['return value, resolved direction, levels'],
     'generated multi-paragraph text against a reference model and metamorphic relations (appending text, smaller outputs)',
     'In a CR LF pair each is taken as a separator of its own, as the library does.')

prop('C19', 'Reordering a line is the standard visual order of its visible characters',
     'For every paragraph and every part of it taken as line, the reordered line is the sequence of its characters in the visual order of rules L1 and L2, without those removed by rule X9 and with mirrored characters in right-to-left runs replaced by their mirror. '
     'The returned length counts all of them whatever the output size, and nothing outside of the output is written.',
     ['inputs', 'configurations'], 'every text times three directions times every part as line times output sizes',
     'The official tests reorder whole paragraphs with a large output; parts of paragraphs and small outputs are not tested (one such defect was found and repaired).',
     ['src/bidirectional.c', 'gen/bidirectional.c'], [('reversal per level', 'src/bidirectional.c: grapheme_bidirectional_reorder_line'), ('mirror table', 'gen/bidirectional.c: mirror_callback')], ['output and return value of reorder_line'],
     'generated lines against a reference model of L1/L2/L4 (differential), permutation invariant, canaries',
     'Known finding: the library also mirrors at even levels (see known_findings.jsonl); that single deviation is accepted, any other is reported.')

prop('C20', 'Line embedding levels reset trailing whitespace and honour the output size',
     'For every part of a paragraph taken as line, the line levels are the paragraph levels with trailing whitespace and isolate controls, and those before separators, reset to the paragraph level (rule L1), and characters removed by rule X9 marked as such. '
     'The return value is the number of levels the line has, a smaller output gets the first ones only, and nothing behind it is written.',
     ['inputs', 'configurations'], 'every text times three directions times every part as line times output sizes',
     'The tests always take a whole paragraph as line with an output that fits (one such defect was found and repaired).',
     ['src/bidirectional.c'], [('rule L1 per line', 'src/bidirectional.c: get_line_embedding_levels')], ['levels and return value'],
     'generated lines against a reference model of L1 (differential), canaries, prefix relation for small outputs',
     'Rule L1 parts 1 to 4; a line that ends before trailing whitespace of the paragraph is covered by taking arbitrary parts.')

prop('C21', 'All functions are pure, reentrant and thread-safe',
     'Every result and output depends on the arguments of the call alone: repeating a call at any time, after any other calls, at another address, with other prior content of outputs, or concurrently from several threads on shared read-only input gives the same result. '
     'There is no data race and no hidden state.',
     ['histories', 'schedules', 'inputs'], 'every history of calls and every interleaving of threads calling any functions',
     'The tests are single-threaded and call each function once per fixed input.',
     ['src/utf8.c', 'src/util.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c', 'src/case.c', 'src/bidirectional.c'],
     [('no mutable globals: all state in arguments or on the stack', 'src/*.c')], ['results of repeated and concurrent calls', 'ThreadSanitizer reports'],
     'generated call histories replayed in other orders, addresses and threads; results compared, ThreadSanitizer build',
     'Schedules are those the OS produces with 4 threads under TSan, which reports races on any schedule where both accesses happen without order.')

prop('C22', 'Every code point behaves as its Unicode 15.0 properties demand',
     'For each of the 0x110000 code points and beyond, its behaviour in every segmentation, in case conversion, in bidirectional classes, brackets and mirroring is that of its Unicode 15.0 properties, including the defaults for unassigned code points; values above U+10FFFF act as unassigned without properties.',
     ['inputs'], 'every code point times a set of contexts that tells all property classes apart',
     'The official tests use about one code point per class, so a wrong table range or a wrong default is invisible (two such defects were found and repaired).',
     ['gen/util.c', 'gen/character.c', 'gen/word.c', 'gen/sentence.c', 'gen/line.c', 'gen/case.c', 'gen/bidirectional.c', 'data/'],
     [('range parsing and defaults', 'gen/util.c'), ('two-stage tables', 'gen/util.c: properties_get_major_minor'), ('derived classes and defaults', 'gen/line.c, gen/bidirectional.c')], ['all public functions around each code point'],
     'exhaustive generation of all code points in distinguishing contexts against reference models (differential)',
     'Complete over code points for the chosen contexts, which are computed so that any two classes differ in at least two of them.')

prop('C23', 'Work grows linearly with the text; stack small, nothing allocated',
     'For every text, the work of a call grows at most in proportion to the length of its input: segmenting a whole text by repeated calls, converting, detecting, preprocessing a paragraph and reordering a line take linear time whatever the text holds, so no input can make the library hang. '
     'No call allocates memory, and the stack it needs is small and independent of the text.',
     ['inputs'], 'every family of texts prefix, unit times k, middle, unit times k, suffix and every public function',
     'No test measures cost or uses more than a few dozen code points; a superlinear scan gives right results on all of them (five such defects were found and repaired).',
     ['src/util.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c', 'src/case.c', 'src/bidirectional.c'],
     [('lookahead of rules', 'src/sentence.c: SB8; src/line.c: LB25; src/case.c: Final_Sigma'), ('isolating run sequences', 'src/bidirectional.c: preprocess_isolating_run_sequence'), ('reversal per level', 'src/bidirectional.c: grapheme_bidirectional_reorder_line'), ('no heap, fixed state', 'all of src')],
     ['executed basic block transitions of the library (compiler instrumentation), stack high-water mark, calls of the allocator'],
     'generated text families at two sizes; growth of the exactly counted work, stack and allocations between both (metamorphic)',
     'Work is counted, not timed, so the verdict does not depend on the machine; families have up to two repeated units.')

prop('C24', 'The library follows whatever well-formed data files it is built from',
     'For every well-formed set of Unicode character data files (another version, other assignments, ranges, orders, layouts, long lines), the library builds from them and then segments, converts, detects case, orders bidirectionally and mirrors every text exactly as the standards say for these data: '
     'each code point up to U+10FFFF has the property, mapping, bracket pair and mirror image that the files give it, or the default.',
     ['inputs'], 'every set of data files within the bounds given in DESIGN.md, every text',
     'The tests only run on the committed data, so whatever the generators get wrong for other data, and each table width or offset that only suffices for it, is invisible (three such defects were found and repaired).',
     ['gen/util.c', 'gen/bidirectional.c', 'gen/case.c', 'gen/character.c', 'gen/line.c', 'gen/sentence.c', 'gen/word.c', 'src/bidirectional.c', 'src/case.c'],
     [('parsing', 'gen/util.c: get_line, parse_file_with_callback, properties_callback, hextocp, parse_cp_list, range_parse'), ('two-stage tables', 'gen/util.c: properties_compress, properties_get_major_minor, properties_print_*'), ('merged properties', 'gen/line.c, gen/word.c, gen/case.c: handle_conflict, post_process'), ('brackets, mirrors', 'gen/bidirectional.c'), ('mappings', 'gen/case.c')],
     ['all public functions of a library built from generated data files'],
     'generated data files (operations on the vendored Unicode 15.0.0 data, written in varying layouts) x generated texts and code point sweeps, differential against the reference models over the same model of the data; both shrink',
     'Data are mutations of Unicode 15.0.0; malformed files are out of scope.')

prop('C25', 'Offsets, lengths and results hold for texts of any length',
     'A call treats a text of any length that memory can hold as it treats a shorter one of the same make: once a part of a text repeats, the returned offset, needed size, length in the case asked for, paragraph length, verdict, direction and the end of the output follow the number of repetitions linearly, '
     'also where counts of code points or bytes of the text or of the destination pass 2^8, 2^16, 2^31 and 2^32, with explicit lengths as well as NUL-terminated.',
     ['inputs', 'configurations'], 'every text head, unit times k, tail, every k, every public function whose cost in memory allows it',
     'The tests use at most a few dozen code points, so a counter or offset that is too narrow never overflows.',
     ['src/util.c', 'src/util.h', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c', 'src/case.c', 'src/bidirectional.c'],
     [('reader and writer offsets, limits', 'src/util.h: HERODOTUS_READER, HERODOTUS_WRITER; src/util.c'), ('segmentation loops', 'src/character.c, src/word.c, src/sentence.c, src/line.c: next_*_break'), ('conversion and detection', 'src/case.c'), ('paragraph length, levels', 'src/bidirectional.c: preprocess, get_line_embedding_levels')],
     ['return values, output lengths and the last bytes of the destination'],
     'generated families head, unit x k, tail; the results for small k predict those for large k, up to more than 2^32 units in memory that shows the same megabytes again and again (metamorphic)',
     'Beyond some 10^5 units bidirectional levels and reordering are not reached: they need a real buffer of the size of the text.')

prop('C26', 'Results do not depend on compiler, options, word size or plain char',
     'The library, and the programs that generate its tables, behave the same on every platform standard C permits: the same call gives the same result, length and output whichever compiler, language version and optimisation level it was built with, '
     'whether pointers and sizes have 32 or 64 bits, whether plain char is signed or unsigned, whatever the size of enumerations and whatever unset variables happen to hold.',
     ['inputs', 'configurations'], 'every text, well-formed or not, every public function, every pair of builds',
     'The tests run in one build on one platform; code that relies on signed char, on 64 bit sizes or on one compiler\'s choices passes there.',
     ['src/utf8.c', 'src/util.c', 'src/case.c', 'src/bidirectional.c', 'src/character.c', 'src/word.c', 'src/sentence.c', 'src/line.c', 'gen/util.c', 'gen/bidirectional.c', 'gen/case.c'],
     [('bytes of plain char', 'src/utf8.c: grapheme_decode_utf8; gen/util.c: hextocp, get_line'), ('open length is SIZE_MAX', 'src/util.c: herodotus_read_codepoint'), ('packed state', 'src/bidirectional.c: get_state, set_state; src/character.c: state_serialize'), ('signed offsets', 'src/case.c: get_case_offset; src/bidirectional.c: get_mirror_offset')],
     ['digests of all results and outputs of the public functions, compared between builds'],
     'generated texts and parameters run on eight builds of the library (gcc and clang, -O0 to -O3, unsigned char, short enums, patterned and zeroed locals, 32 bit), differential between the builds; a difference shrinks',
     'All builds run on x86; big-endian machines and CHAR_BIT other than 8 are not reached. If 32 bit programs cannot run, those two builds are left out and the evidence says so.')

WIDE = {}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = dict(files=p['files'], mechanism=p['mech'], observe_at=p['observe'], hook_needed=None)
            if p['state']:
                a['state'] = p['state']
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=p['quantifier'], why_tests_cant=p['why'], anchors=a)) + '\n')
    m = dict(version=1, setup_cmd='./setup.sh',
             checks=[dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py ' + p['id'],
                          technique=p['tech'], level='exploration', level_note=p['note']) for p in P],
             not_applicable=[], notes='No hooks in /repo: every property is observed through the public API. See DESIGN.md.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
