"""The properties, in one place: mkmeta.py writes properties.jsonl and MANIFEST.json from this list."""

PROPS = []


def P(id, title, statement, over, text, why, files, mech, observe=(), state=(), tech='', note=''):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                      anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                                   mechanism=[dict(name=a, where=b) for a, b in mech],
                                   observe_at=list(observe), hook_needed=None),
                      tech=tech, note=note))


RSC = ['reed_solomon_decoder.hh', 'reed_solomon_error_correction.hh', 'galois_field.hh']
BCD = ['bose_chaudhuri_hocquenghem_decoder.hh', 'reed_solomon_error_correction.hh', 'galois_field.hh', 'bitman.hh']

P('C01', 'Reed-Solomon decoding repairs every pattern within the guaranteed radius',
  'For every Reed-Solomon code offered (any field, number of parity symbols and first consecutive root, full or shortened), every codeword corrupted by e wrong symbols and s erased symbols with 2e+s not above the number of parity symbols is restored exactly, in data and parity. The decoder returns the number of symbols it changed back, and it never reports failure within that radius.',
  ['inputs', 'configurations'], 'all codes (field polynomial, parity, first root), lengths, codewords and error/erasure patterns within the radius',
  'The tests decode a few random patterns of four codes at the full length, with fixed random seeds; locator polynomials of low degree are solved by special cases (tables and quadratic/linear formulas) whose entries are reached by only a few of the patterns.',
  RSC, [('syndromes and Berlekamp-Massey', 'reed_solomon_decoder.hh / reed_solomon_error_correction.hh: BerlekampMassey'), ('root search incl. Artin-Schreier table for degree 2', 'reed_solomon_error_correction.hh: LocationFinder, Chien'), ('Forney magnitudes', 'reed_solomon_error_correction.hh: Forney')],
  ['decoder return value', 'data and parity arrays after the call'],
  tech='differential runtime oracle: decode against an independently built codeword', note='Random plus exhaustive single/double error patterns on small and medium fields; an independent encoder over a table-free field model supplies the codewords. Not every pattern of the large fields is visited.')

P('C02', 'Reed-Solomon decoding reports success only when its output is a codeword',
  'For every received word, however many symbols are wrong and whatever is marked erased, a non-negative result means that data and parity form a codeword of the code after the call, and the result equals the number of symbols that differ from the received word (erased symbols whose value was already right excepted as unchanged). A word that is already a codeword is reported as zero corrections and left alone.',
  ['inputs', 'configurations'], 'all received words (inside and outside the radius), erasure lists, codes and lengths',
  'The tests hardly go beyond the radius, so detected failures, false positives and the returned counts are not compared with anything.',
  RSC, [('locator degree against register length, root count against degree', 'reed_solomon_error_correction.hh'), ('position bound for shortened codes', 'reed_solomon_decoder.hh')],
  ['decoder return value', 'data and parity arrays after the call'],
  tech='runtime verdict monitor: independent syndromes of every output', note='Every coset of small codes, crafted syndrome shapes and random words; the judge computes syndromes with its own field arithmetic.')

P('C03', 'Reed-Solomon encoding is systematic division by the generator',
  'For every message of any allowed length the computed parity is the one that makes data followed by parity a multiple of the generator polynomial whose roots are the configured consecutive powers, and the data is left unchanged. The result depends on the message alone, not on what the parity buffer held before.',
  ['inputs', 'configurations'], 'all codes, lengths, messages and previous contents of the parity buffer',
  'The tests compare the parity with a stored vector for one message per code.',
  ['reed_solomon_encoder.hh', 'galois_field.hh'], [('generator expansion', 'reed_solomon_encoder.hh constructor'), ('linear feedback encoding with zero-feedback shortcut', 'reed_solomon_encoder.hh operator()')],
  ['parity array'], tech='differential runtime oracle: schoolbook polynomial division', note='Random, sparse and single-symbol messages over all symbol types and fields built in the harness.')

P('C04', 'BCH decoding repairs every pattern within the guaranteed radius',
  'For every binary BCH code offered, in both the packed-bit and the one-symbol-per-bit interface, at full or shortened length, every codeword corrupted by e flipped bits and s erased bits with 2e+s not above the number of consecutive roots is restored exactly. The decoder returns the number of bits it changed back, never a failure, within that radius.',
  ['inputs', 'configurations'], 'all codes, lengths, codewords and error/erasure patterns within the radius, both interfaces',
  'The tests decode a few random patterns of three codes.',
  BCD, [('syndromes of packed bits', 'bose_chaudhuri_hocquenghem_decoder.hh'), ('shared locator and root search', 'reed_solomon_error_correction.hh')],
  ['decoder return value', 'data and parity after the call'], tech='differential runtime oracle: decode against an independently built codeword', note='Same reach as for the Reed-Solomon radius check, plus both interfaces on the same word.')

P('C05', 'BCH decoding reports success only when its output is a codeword',
  'For every received bit string and erasure list, a non-negative result means that data and parity form a codeword after the call and that the result is the number of bits changed; a codeword is reported as zero corrections and left alone. The packed and the one-symbol-per-bit interface of the same code agree on verdict and output.',
  ['inputs', 'configurations'], 'all received words inside and outside the radius, erasure lists, codes, lengths, both interfaces',
  'Words outside the radius are not tested, and the two interfaces are tested on different codes.',
  BCD, [('rejection of non-binary magnitudes, root count against degree', 'reed_solomon_error_correction.hh / bose_chaudhuri_hocquenghem_decoder.hh')],
  ['decoder return value', 'data and parity after the call'], tech='runtime verdict monitor: independent division of every output by the generator', note='Every coset of codes with up to 16 parity bits and random words of longer ones.')

P('C06', 'BCH encoding is systematic division by the product of minimal polynomials',
  'For every message of any allowed length both encoder interfaces compute the parity bits that make message followed by parity a multiple of the least common multiple of the configured minimal polynomials. The message is left unchanged and previous contents of the parity buffer do not matter.',
  ['inputs', 'configurations'], 'all codes, message lengths (also not multiples of eight where allowed), messages and previous parity contents, both interfaces',
  'The tests compare one message per code with a stored parity.',
  ['bose_chaudhuri_hocquenghem_encoder.hh', 'bitman.hh', 'galois_field.hh'], [('generator from minimal polynomials', 'bose_chaudhuri_hocquenghem_encoder.hh constructors'), ('bit- and byte-wise linear feedback registers', 'bose_chaudhuri_hocquenghem_encoder.hh operator(), bitman.hh')],
  ['parity array'], tech='differential runtime oracle: schoolbook division of bit polynomials', note='Generators are derived independently from the field model.')

P('C07', 'Binary extension field arithmetic is exact for every operand and field',
  'For every field of two to the M elements with any primitive polynomial, addition, multiplication, division, reciprocal, powers by index, logarithm and exponential conversions and fused multiply-add give the result of polynomial arithmetic modulo that polynomial, for all operands including zero wherever the operation is defined on zero. Table-based and table-free implementations of the same field agree, in value and in index form.',
  ['inputs', 'configurations'], 'all field sizes, primitive polynomials, symbol types and operands',
  'The tests multiply and divide in a few fields without an independent reference, and only the table implementation is exercised with full coverage.',
  ['galois_field.hh'], [('log/exp tables and their reduction modulo N', 'galois_field.hh: Tables, Index operators'), ('table-free reference types', 'galois_field.hh: GaloisFieldReference')],
  ['operator results'], tech='differential runtime oracle: carry-less multiplication', note='All pairs in all primitive-polynomial fields up to degree 8 and some of degree 9; corners and random operands for the larger ones.')

P('C08', 'Prime field arithmetic is exact for every operand and prime',
  'For every supported prime modulus, addition, subtraction, negation, multiplication, multiply-add, reciprocal, division and exponentiation of reduced operands give the reduced result of exact integer arithmetic, without overflow for moduli up to the width of the value type.',
  ['inputs', 'configurations'], 'all primes and operands, including the extreme residues of moduli close to the type limit',
  'The tests use one prime and a handful of operands.',
  ['prime_field.hh'], [('conditional reductions and extended Euclid / Fermat inverse', 'prime_field.hh')],
  ['operator results'], tech='differential runtime oracle: 128 bit integers', note='All pairs for primes up to 1024; corners and random pairs for the larger ones.')

P('C09', 'Cauchy Reed-Solomon erasure coding recovers from any sufficient set of blocks',
  'For every number K of data blocks, any K encoded blocks with distinct identifiers suffice to recover every data block byte for byte, whatever their order and whichever identifiers were chosen. Encoded blocks are a function of the data and the identifier alone.',
  ['inputs', 'configurations', 'fault_sequences'], 'all fields, block counts, block lengths, data and choices of surviving blocks',
  'The tests draw a few random choices of surviving blocks for two fields.',
  ['cauchy_reed_solomon_erasure_coding.hh', 'galois_field.hh'], [('Cauchy matrix elements and inverse', 'cauchy_reed_solomon_erasure_coding.hh: cauchy_matrix, inverse_cauchy_matrix'), ('multiply-accumulate over blocks', 'cauchy_reed_solomon_erasure_coding.hh: multiply_accumulate')],
  ['decoded blocks'], tech='round-trip runtime oracle over loss patterns', note='Every subset for the small fields, extreme and random ones for GF(256) and GF(65536).')

P('C10', 'Erasure blocks do not depend on alignment, length, interface or instruction set',
  'The bytes of an encoded or decoded Cauchy Reed-Solomon block are the Cauchy combination of the input symbols for every start offset and length of the buffers, for every way of passing the blocks, and in every instruction-set build (AVX2, SSE4.1, NEON, plain). No byte outside the output block is written.',
  ['inputs', 'configurations'], 'all buffer offsets, lengths, identifiers, symbol values, call forms and builds',
  'The tests run one build with suitably aligned buffers of one length and never compare with a reference product.',
  ['cauchy_reed_solomon_erasure_coding.hh'], [('vector kernels with nibble tables, alignment test and scalar tail', 'cauchy_reed_solomon_erasure_coding.hh: multiply_accumulate')],
  ['output block and guard bytes around it'], tech='differential runtime oracle with guard bytes, several builds', note='NEON runs through an emulation of the intrinsics, since no ARM hardware or emulator is here.')

P('C11', 'Cauchy prime-field erasure coding recovers from any sufficient set of blocks',
  'For every supported prime field and number K of data blocks, any K encoded blocks with distinct identifiers recover every data block exactly, including data that hits the one field value which does not fit the symbol width. Encoded blocks are the Cauchy combination of the data modulo the prime with that value replaced by the announced substitute.',
  ['inputs', 'configurations', 'fault_sequences'], 'all prime fields, block counts, lengths, data and choices of surviving blocks',
  'The value that needs substitution turns up rarely in random data, and the tests use few choices of blocks.',
  ['cauchy_prime_field_erasure_coding.hh', 'prime_field.hh'], [('free-value search and substitution', 'cauchy_prime_field_erasure_coding.hh: find_unused'), ('Cauchy matrix elements and inverse', 'cauchy_prime_field_erasure_coding.hh')],
  ['encoded and decoded blocks'], tech='round-trip and differential runtime oracle', note='Includes data solved so that the unrepresentable value occurs.')

P('C12', 'CRC values equal polynomial division for every input and feeding pattern',
  'For every register width, polynomial and start value, the value after any sequence of feeds of bits, bytes and wider words equals the remainder of bit-by-bit polynomial division over the same stream, and resetting restarts it from the given value. Copies evolve independently.',
  ['inputs', 'histories'], 'all polynomials, start values and feed sequences',
  'The tests check one known value per width.',
  ['crc.hh'], [('table construction and per-width update', 'crc.hh: CRC, CRC<uint8_t>')], ['returned register values'],
  tech='differential runtime oracle over random feed histories', note='All bytes against all register low bytes for several polynomials.')

P('C13', 'Hadamard decoding finds the unique most likely message',
  'For every vector of soft inputs the Hadamard decoder returns the message whose codeword has the strictly largest correlation with the input, and reports failure exactly when the largest correlation is shared. Every encoded message is the documented bipolar codeword and decodes back to itself.',
  ['inputs', 'configurations'], 'all code sizes and integer soft input vectors, ties included',
  'The tests use one size with noisy codewords and never look at ties or specialised small sizes.',
  ['hadamard_encoder.hh', 'hadamard_decoder.hh'], [('fast Hadamard transform and runner-up tracking', 'hadamard_decoder.hh')], ['returned message'],
  tech='differential runtime oracle: exhaustive correlation', note='Every input vector over small alphabets for the small sizes, random and tie-rich vectors for larger ones.')

P('C14', 'Simplex decoding finds the unique most likely message',
  'For every vector of soft inputs the simplex decoder returns the message whose codeword has the strictly largest correlation with the input, and reports failure exactly when the largest correlation is shared. Every encoded message is the documented bipolar codeword and decodes back to itself.',
  ['inputs', 'configurations'], 'all code sizes and integer soft input vectors, ties included',
  'The tests use one size with noisy codewords and never look at ties or specialised small sizes.',
  ['simplex_encoder.hh', 'simplex_decoder.hh'], [('fast transform over the punctured code and runner-up tracking', 'simplex_decoder.hh')], ['returned message'],
  tech='differential runtime oracle: exhaustive correlation', note='Every input vector over small alphabets for the small sizes, random and tie-rich vectors for larger ones.')

P('C15', 'Short BCH codes: systematic encoding, radius correction, likely soft decision',
  'Every message is encoded to the systematic multiple of the generator, hard decoding returns the unique codeword within the correction radius of the word and reports failure when there is none, and soft decoding of the tiny codes returns the unique most likely message or failure on a tie. Soft decoding of the longer codes returns the most likely of the codewords that hard decoding finds after flipping any subset of the configured number of least reliable bits, reports failure only when there is none or the most likely one is not unique, and so corrects every pattern of equally reliable errors within the radius.',
  ['inputs', 'configurations'], 'all words of the block length, all messages, all integer soft inputs',
  'The tests sample noisy words and compare error rates loosely.',
  ['short_bch_code_encoder.hh', 'short_bch_code_decoder.hh'], [('syndrome table', 'short_bch_code_decoder.hh'), ('Chase-style search over least reliable positions', 'short_bch_code_decoder.hh')], ['returned codeword or message'],
  tech='differential runtime oracle: nearest codeword and exhaustive likelihood', note='All words for the codes up to 2^23, exhaustive likelihood for every soft decision.')

P('C16', 'Ordered statistics decoding finds the best codeword of its search order',
  'For every generator matrix of full rank and every soft input, the hard output is a codeword that has the largest correlation among all codewords obtained by flipping at most the configured number of bits of the most reliable independent positions, and the decoder says whether that optimum was unique. With the order equal to the dimension this is maximum likelihood decoding.',
  ['inputs', 'configurations'], 'all generator matrices, orders and soft inputs',
  'The tests decode noisy words of one code and look only at the error rate.',
  ['osd.hh', 'sort.hh'], [('reliability sort, Gaussian elimination, candidate search', 'osd.hh: OrderedStatisticsDecoder')], ['hard output', 'uniqueness verdict'],
  tech='differential runtime oracle: independent most-reliable-basis search', note='Several orders and dimensions, random and BCH generator matrices.')

P('C17', 'Ordered statistics list decoding returns the best candidates, ranked',
  'For every generator matrix of full rank and every soft input the list decoder returns codewords in order of falling correlation, equal ranks exactly for equal correlations, no codeword twice, and the list holds the best candidates of the configured search order. Its first entry is as likely as the output of the ordinary decoder of that order.',
  ['inputs', 'configurations'], 'all generator matrices, orders, list sizes and soft inputs',
  'The tests decode noisy words of one code and look only at the error rate.',
  ['osd.hh', 'sort.hh'], [('candidate list insertion and ranking', 'osd.hh: OrderedStatisticsListDecoder')], ['list of hard outputs', 'ranks'],
  tech='differential runtime oracle: full candidate enumeration', note='Enumerates all candidates of the order independently and compares metrics.')

P('C18', 'LDPC encoding satisfies every parity check',
  'For every supported code table and every message, the parity computed by the encoder makes every check of the code even, whatever the parity buffer held before. The message itself is left unchanged.',
  ['inputs', 'configurations'], 'all code tables and messages',
  'The tests encode random messages of four tables and rely on the decoder to notice wrong parity.',
  ['ldpc_encoder.hh'], [('accumulator address decoding of the table and final accumulation', 'ldpc_encoder.hh')], ['parity array'],
  tech='runtime monitor: independent parity-check matrix', note='The check matrix is expanded from the table by the documented rule; standard and synthetic tables.')

P('C19', 'LDPC decoding reports success only on codewords and corrects light noise',
  'A non-negative result means that the signs of message and parity after the call satisfy every check and no value is zero; a negative one means that the iterations ran out. A noiseless codeword of any amplitude is accepted unchanged in sign at once, mild noise is corrected to the transmitted codeword, and each iteration applies the layered self-corrected offset min-sum rule in saturating 8 bit arithmetic, the same on every call.',
  ['inputs', 'configurations', 'histories'], 'all code tables, soft inputs, iteration limits and call histories, every vector width',
  'The tests run noise at one level per table and compare total error counts only.',
  ['ldpc_decoder.hh', 'exclusive_reduce.hh', 'rotate.hh', 'simd.hh'], [('layered message passing with packed rotations', 'ldpc_decoder.hh'), ('bad-check detection', 'ldpc_decoder.hh: bad')], ['return value', 'soft outputs'],
  tech='runtime verdict monitor: independent parity-check matrix on every output', note='Standard DVB tables and synthetic tables, on the SIMD builds and the scalar one.')

P('C20', 'Polar encoding is the binary polar transform, systematic where promised',
  'For every length the polar encoder maps a message and a set of frozen positions to the product with the polar transform, and the systematic encoder outputs a polar codeword whose values at the information positions are the message. Neither writes outside its outputs.',
  ['inputs', 'configurations'], 'all lengths, frozen sets (any for plain, the supported nested ones for systematic) and messages, all value types',
  'The tests encode random messages for one frozen set per length and look at them only through the decoder.',
  ['polar_encoder.hh', 'polar_helper.hh'], [('butterfly with fused frozen insertion', 'polar_encoder.hh')], ['codeword array'],
  tech='differential runtime oracle: direct transform', note='Every frozen set for the tiny lengths.')

P('C21', 'Polar code construction freezes exactly the least reliable positions',
  'For every length and erasure probability the construction yields exactly the requested number of information positions, the most reliable ones by the recursion of the erasure channel; the threshold construction freezes exactly the positions above the threshold and counts the rest; the reliability sequence is a permutation from the least to the most reliable. Positions are nested: one that is provably better than an information position is one too, so that systematic encoding works, unless it is saturated at certain failure.',
  ['inputs', 'configurations'], 'all lengths, design parameters and numbers of information bits',
  'The tests construct one code per length and do not look at the positions.',
  ['polar_freezer.hh', 'polar_sequence.hh'], [('recursive erasure probabilities and nth_element selection', 'polar_freezer.hh, polar_sequence.hh')], ['frozen bit set', 'sequence array'],
  tech='differential runtime oracle: recursion in extended precision', note='Positions whose reliability is closer than rounding are allowed to swap.')

P('C22', 'Polar successive-cancellation decoding follows the decision rule exactly',
  'For every length, frozen set and soft input, the decoded message is the one given by successive cancellation with the documented min-sum rules, also where subtrees are all frozen or all information, and vector value types decode each lane like a scalar. A noiseless codeword decodes to its message; decisions inside an all-information subtree with a zero among its soft values are left open.',
  ['inputs', 'configurations'], 'all lengths, frozen sets and soft inputs',
  'The tests look at error rates of one frozen set per length.',
  ['polar_decoder.hh', 'polar_helper.hh'], [('tree with rate-0 pruning and leaf kernels', 'polar_decoder.hh'), ('saturating min-sum helpers', 'polar_helper.hh')], ['message array'],
  tech='differential runtime oracle: naive recursive decoder', note='Every frozen set for tiny lengths, random and constructed ones for the longer ones.')

P('C23', 'Polar list decoding returns distinct, correctly ranked, sufficiently good paths',
  'For every length, frozen set whose last position informs and soft input, the list decoder returns messages by rising penalty (the soft values a path decides against), with equal rank exactly for equal penalty and no message twice, and they are the survivors of list decoding whenever no tie at the list boundary leaves them open. When the list holds as many paths as there are messages it is the whole code in order of likelihood, and a noiseless codeword of any amplitude is ranked first.',
  ['inputs', 'configurations'], 'all lengths, list sizes, frozen sets and soft inputs',
  'The tests look at error rates of one frozen set per length.',
  ['polar_list_decoder.hh', 'polar_helper.hh', 'simd_sort.hh'], [('path forking, sorting and lane shuffles', 'polar_list_decoder.hh')], ['messages', 'ranks'],
  tech='differential runtime oracle: naive list decoder and exhaustive likelihood', note='Exact integer-valued metrics make ranks comparable without tolerance.')

P('C24', 'Parity-aided polar codes: encoder obeys the parity rule, decoder decodes it',
  'The parity-aided encoder turns a free position into the parity of the message bits since the previous one after the configured first number of message bits and then after every stride of them, and the decoder returns only paths that obey this, by rising penalty with equal rank exactly for equal penalty, without duplicates, and the survivors of list decoding under that constraint. A noiseless codeword decodes to its message, also when parity comes first.',
  ['inputs', 'configurations'], 'all lengths, frozen sets, strides, starts, messages and soft inputs',
  'The tests use one stride and look at error rates.',
  ['polar_parity_aided.hh', 'polar_list_decoder.hh'], [('parity accumulation across subtrees', 'polar_parity_aided.hh')], ['codeword', 'messages and ranks'],
  tech='differential runtime oracle: naive parity-aided list decoder', note='Strides, starts and frozen sets are varied together.')

P('C25', 'Vector operations equal their scalar definition per lane on every backend',
  'For every lane type and width and every backend, each vector operation gives in each lane what the scalar definition of that operation gives for the lane operands, including saturation, extreme values and comparison masks. Operations do not mix lanes, except the shuffle, which selects the lanes named.',
  ['inputs', 'configurations'], 'all operations, lane types, widths, backends and operand values',
  'No test calls most of these operations, and a run uses one backend only.',
  ['simd.hh', 'avx2.hh', 'avx2_double.hh', 'sse4_1.hh', 'sse4_1_double.hh', 'sse4_1_triple.hh', 'sse4_1_quadruple.hh', 'neon.hh', 'neon_double.hh', 'neon_triple.hh', 'neon_quadruple.hh'],
  [('intrinsic specialisations', 'one header per backend'), ('generic element loops', 'simd.hh')], ['result lanes'],
  tech='differential runtime oracle: scalar model per lane, every backend', note='All operand pairs for 8 bit lanes, corners and random for wider ones; NEON through emulated intrinsics.')

P('C26', 'Every sorting routine yields the stable sorted permutation of its input',
  'For every key sequence within the supported length, each sorting routine, in its value and its index form, returns a permutation of the input in order in which equal keys keep their input order. Insertion-based, merging and bounded routines agree.',
  ['inputs', 'configurations'], 'all key sequences, lengths, capacities and run lengths',
  'The tests sort a few random arrays, mostly without equal keys.',
  ['sort.hh'], [('insertion runs and bottom-up merge', 'sort.hh')], ['sorted arrays and permutations'],
  tech='differential runtime oracle: std::stable_sort on tagged records', note='All sequences of up to 9 keys over small alphabets, random long ones.')

P('C27', 'In-register sorting yields the stable order of the lanes',
  'For every vector of keys and every lane width, the in-register sort returns the sorted lanes, the ordering variant returns the permutation that sorts them with equal keys in input order, and both agree.',
  ['inputs', 'configurations'], 'all key vectors over all supported lane types and widths',
  'The tests sort a few random vectors.',
  ['simd_sort.hh', 'simd.hh'], [('lane insertion sort', 'simd_sort.hh')], ['sorted vector and order'],
  tech='differential runtime oracle: std::stable_sort', note='All key vectors over small alphabets for widths up to 8, random for wider ones; every backend.')

P('C28', 'Interleavers and permutations are the documented bijections with exact inverses',
  'For every size, each shuffle and interleaver rearranges the elements by the documented permutation without losing or duplicating any, and its inverse restores the original order exactly. Reusing one object for several blocks does not change the permutation beyond what its documented state implies.',
  ['inputs', 'configurations', 'histories'], 'all sizes, depths, element types, contents and reuse sequences',
  'The tests round-trip one or two sizes, which a matched pair of wrong permutations also passes.',
  ['permute.hh', 'interleave.hh', 'xorshift.hh'], [('index recursion per shuffle', 'permute.hh'), ('block interleaver', 'interleave.hh')], ['rearranged arrays'],
  tech='differential runtime oracle: independent permutation model', note='Many sizes and element types per permutation.')

P('C29', 'Bit containers behave as a plain sequence of bits',
  'For every history of reads, writes, seeks and resets at any bit offset and width, a bit stream or bit array behaves as the plain sequence of bits it stands for, and single-bit accessors on byte arrays read or change exactly the addressed bit in the documented bit order. No neighbouring bit or byte changes.',
  ['inputs', 'histories'], 'all operation histories, offsets and widths',
  'The tests write and read one fixed sequence.',
  ['bitman.hh', 'bitstream.hh'], [('shift and mask arithmetic', 'bitman.hh, bitstream.hh')], ['container content and returned bits'],
  tech='model-based runtime monitor over random histories', note='After every operation the whole content is compared.')

P('C30', 'Pseudo-random and maximum length sequences follow their recurrences',
  'Every pseudo-random generator produces the outputs of its published recurrence from its seed, for ever, and a reset restarts it. A maximum length sequence register follows its feedback polynomial from its start value, and the test for maximum length accepts exactly the primitive polynomials.',
  ['inputs', 'configurations'], 'all seeds, feedback polynomials and positions in the sequence',
  'The tests check one output far down the sequence for the default seed.',
  ['xorshift.hh', 'mls.hh'], [('shift/xor recurrences', 'xorshift.hh'), ('Galois register and period test', 'mls.hh')], ['output sequence', 'maximum-length verdict'],
  tech='differential runtime oracle: independent recurrences', note='All feedback polynomials up to degree 11 and random ones up to degree 29.')

P('C31', 'Lane rotation rotates exactly the first lanes by the given amount',
  'For every element type, every active width up to the register size and every shift strictly between minus and plus that width, rotation moves each active lane by the shift modulo the width, in every build. The shift may change from call to call.',
  ['inputs', 'configurations'], 'all widths, shifts, lane contents and builds',
  'The tests rotate one width.',
  ['rotate.hh'], [('byte shuffles with offset tables per backend, generic loop', 'rotate.hh')], ['active lanes of the result'],
  tech='differential runtime oracle: modular index arithmetic', note='All widths and shifts, random content; every backend.')

P('C32', 'Exclusive reduction leaves out exactly one input per output',
  'For every length of at least two and every associative and commutative operation, each output is the reduction of all other inputs. Input order does not matter beyond that, inputs may be any values, and the number of applications of the operation grows only in proportion to the length.',
  ['inputs', 'configurations'], 'all lengths, operations and inputs',
  'The tests use one operation and a few lengths.',
  ['exclusive_reduce.hh'], [('tree / running prefix-suffix scheme', 'exclusive_reduce.hh')], ['output array', 'applications of the operation'],
  tech='differential runtime oracle: direct reduction', note='Lengths 2 to 301, several operations.')

P('C33', 'A call depends on its inputs only, not on earlier calls or stale memory',
  'Encoding or decoding with an object that has been used before gives the same outputs as with a fresh object, whatever the earlier calls processed, including failed ones, and whatever the memory of a freshly made object or of an output buffer held before. Copies of an object behave like the original.',
  ['histories', 'inputs'], 'all codec objects, call histories and previous memory contents',
  'The tests reuse objects only in one regular pattern, and never with dirty memory.',
  ['reed_solomon_decoder.hh', 'reed_solomon_error_correction.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'cauchy_reed_solomon_erasure_coding.hh', 'cauchy_prime_field_erasure_coding.hh', 'ldpc_encoder.hh', 'ldpc_decoder.hh', 'osd.hh', 'short_bch_code_decoder.hh', 'polar_decoder.hh', 'polar_list_decoder.hh', 'polar_parity_aided.hh', 'polar_freezer.hh', 'hadamard_decoder.hh', 'simplex_decoder.hh', 'permute.hh'],
  [('scratch arrays re-initialised per call', 'every decoder')], ['all outputs of each call'],
  tech='metamorphic runtime oracle: fresh against reused objects in poisoned memory', note='Every codec class; histories are random mixtures of clean, noisy and hopeless inputs.')

P('C34', 'Algebraic and erasure codecs are free of memory errors and undefined behaviour',
  'For every valid configuration and every input, encoding and decoding with the Reed-Solomon, BCH, Cauchy and field classes, including failed decodes, reads and writes only inside the objects and buffers it was given and performs no undefined operation. Buffers of exactly the documented size are enough.',
  ['inputs', 'configurations'], 'all configurations and inputs including uncorrectable ones, exactly sized buffers, every build',
  'The tests run without sanitizers and on correctable words only.',
  ['reed_solomon_decoder.hh', 'reed_solomon_error_correction.hh', 'reed_solomon_encoder.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'bose_chaudhuri_hocquenghem_encoder.hh', 'galois_field.hh', 'prime_field.hh', 'cauchy_reed_solomon_erasure_coding.hh', 'cauchy_prime_field_erasure_coding.hh'],
  [('array bounds derived from template parameters, assertions', 'all listed headers')], ['sanitizer reports'],
  tech='AddressSanitizer and UndefinedBehaviorSanitizer with redzoned exact buffers', note='The same hostile workloads as the functional checks, without assertions disabled.')

P('C35', 'Soft-decision codecs are free of memory errors and undefined behaviour',
  'For every valid configuration and every soft input, also extreme, all-zero and inconsistent ones, the Hadamard, simplex, short BCH, ordered statistics, LDPC and polar classes read and write only inside the objects and buffers they were given and perform no undefined operation. Buffers of exactly the documented size are enough.',
  ['inputs', 'configurations'], 'all configurations and soft inputs, exactly sized buffers, every build',
  'The tests run without sanitizers and with well-behaved noise.',
  ['hadamard_encoder.hh', 'hadamard_decoder.hh', 'simplex_encoder.hh', 'simplex_decoder.hh', 'short_bch_code_encoder.hh', 'short_bch_code_decoder.hh', 'osd.hh', 'ldpc_encoder.hh', 'ldpc_decoder.hh', 'polar_encoder.hh', 'polar_decoder.hh', 'polar_list_decoder.hh', 'polar_parity_aided.hh', 'polar_freezer.hh', 'polar_sequence.hh', 'polar_helper.hh'],
  [('array bounds derived from template parameters', 'all listed headers')], ['sanitizer reports'],
  tech='AddressSanitizer and UndefinedBehaviorSanitizer with redzoned exact buffers', note='The same hostile workloads as the functional checks.')

P('C36', 'Utilities are free of memory errors and undefined behaviour',
  'For every valid input the checksum, bit container, sequence generator, sorting, permutation, rotation, reduction and vector utilities read and write only inside the objects and buffers they were given and perform no undefined operation.',
  ['inputs', 'configurations', 'histories'], 'all inputs, sizes and operation histories, every build',
  'The tests run without sanitizers.',
  ['crc.hh', 'bitman.hh', 'bitstream.hh', 'xorshift.hh', 'mls.hh', 'sort.hh', 'simd_sort.hh', 'permute.hh', 'interleave.hh', 'rotate.hh', 'exclusive_reduce.hh', 'simd.hh'],
  [('bounds derived from template parameters and arguments', 'all listed headers')], ['sanitizer reports'],
  tech='AddressSanitizer and UndefinedBehaviorSanitizer with redzoned exact buffers', note='The same workloads as the functional checks.')

P('C37', 'Separate objects can be used from separate threads',
  'Codec objects of the same or of different kinds used concurrently by different threads, each thread using only its own object, give the same results as when used alone and share no unsynchronised state; that includes constructing objects at the same time. Field tables, once constructed, may be used by any number of threads.',
  ['schedules', 'inputs'], 'all thread interleavings of codec use on separate objects',
  'The tests are single threaded.',
  ['galois_field.hh', 'reed_solomon_decoder.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'cauchy_reed_solomon_erasure_coding.hh', 'ldpc_decoder.hh', 'osd.hh', 'polar_decoder.hh', 'polar_list_decoder.hh', 'short_bch_code_decoder.hh', 'crc.hh', 'permute.hh', 'rotate.hh'],
  [('state kept in the object, read-only tables otherwise', 'all listed headers')], ['ThreadSanitizer reports', 'outputs of each thread'],
  tech='ThreadSanitizer and single-thread reference comparison under concurrent load', note='Every codec kind from eight threads with random delays.')

P('C38', 'Headers work in any number of translation units and on every backend',
  'Every public header can be included, with the standard headers its users include, in several translation units of one program without clashing definitions, and every documented class and vector operation can be instantiated with every instruction-set backend and without one.',
  ['configurations', 'programs'], 'all headers and backends; programs of several translation units',
  'Each test is a program of one translation unit built for one instruction set.',
  ['bitman.hh', 'crc.hh', 'simd.hh', 'avx2.hh', 'avx2_double.hh', 'sse4_1.hh', 'neon.hh', 'rotate.hh', 'cauchy_reed_solomon_erasure_coding.hh'],
  [('inline definitions and per-backend specialisations', 'all headers')], ['compiler and linker verdict', 'output of the linked program'],
  tech='build-and-run monitor over translation units and backends', note='The linked program runs the same calls from each unit and compares them.')

P('C39', 'Decoders give the same result whatever the instruction set',
  'For the same inputs, the soft-decision decoders and the vector-based utilities produce the same outputs in every instruction-set build of the same vector width, and encoders and hard-decision decoders produce the same outputs in every build at all.',
  ['inputs', 'configurations'], 'all inputs, builds for AVX2, SSE4.1, NEON and plain',
  'A run of the tests uses one build only.',
  ['simd.hh', 'avx2.hh', 'sse4_1.hh', 'neon.hh', 'ldpc_decoder.hh', 'polar_list_decoder.hh', 'rotate.hh', 'polar_helper.hh'],
  [('backend selection by predefined macros', 'simd.hh, rotate.hh, ldpc_decoder.hh')], ['digest of all outputs per build'],
  tech='offline comparison of event logs from several builds', note='Logs of the same seeded workload from each build are compared entry by entry.')

P('C40', 'Generator matrices span the code and the linear encoder multiplies with them',
  'For every list of minimal polynomials the constructor yields their product as generator polynomial, as plain matrix its shifts, and as systematic matrix the basis of the same code that starts with the identity, whatever the buffers held before. For every matrix and every message the linear encoder outputs the product of message and matrix, and changes neither.',
  ['inputs', 'configurations'], 'all lists of minimal polynomials, lengths, dimensions, matrices and messages',
  'The tests build one matrix of one code and see it only through the error rate of a decoder.',
  ['osd.hh', 'bitman.hh'], [('expansion of the minimal polynomials, elimination to systematic form', 'osd.hh: BoseChaudhuriHocquenghemGenerator'), ('row-wise accumulation in the packed output', 'osd.hh: LinearEncoder')], ['generator polynomial', 'matrix', 'codeword bits'],
  tech='differential runtime oracle: schoolbook polynomial division and matrix product', note='About forty codes up to length 511, degrees up to 30, repeated factors; encoders up to 2049 bits.')

P('C41', 'Polar arithmetic primitives follow their definition in every lane',
  'For every value type, scalar or vector of any width, and every backend, the primitives of the polar codes (constants, quantisation, sign, magnitude, minimum, sum, product of decisions, min-sum product and multiply-add with a decision) give in each lane the defined result, in 8 bit saturated to plus and minus 127, where a negatively saturated sum of vectors may also read -128.',
  ['inputs', 'configurations'], 'all value types, widths, backends and operands (8 bit values from -127, decisions out of -1, 0, 1)',
  'The tests use three value types on random channel values and look only at decoded messages.',
  ['polar_helper.hh', 'simd.hh'], [('scalar, vector and 8 bit specialisations', 'polar_helper.hh: PolarHelper'), ('NEON and other variants of the sign transfer', 'polar_helper.hh: prod, madd, qmul')], ['results per lane'],
  tech='differential runtime oracle: scalar definition per lane on every backend', note='All pairs of 8 bit operands in the scalar type; random and corner lanes for 25 vector types.')

P('C42', 'Syndrome computation evaluates the received word at every configured root',
  'For every received word of any allowed length, each syndrome the Reed-Solomon and BCH decoders compute on request is the value of the word, read as a polynomial, at the corresponding one of the consecutive roots, and the returned number says how many of them are not zero; it is zero exactly for codewords. All interfaces (raw or typed symbols, packed bits or one symbol per bit, length given or left at its default) agree, the word is left unchanged and old content of the syndrome buffer does not matter.',
  ['inputs', 'configurations'], 'all codes, received words, lengths, interfaces and previous contents of the syndrome buffer',
  'The tests never ask for syndromes; the decoders hide a wrong one of a word outside the tested patterns.',
  ['reed_solomon_decoder.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'galois_field.hh', 'bitman.hh'],
  [('Horner evaluation at all roots in parallel', 'reed_solomon_decoder.hh, bose_chaudhuri_hocquenghem_decoder.hh: update_syndromes, compute_syndromes')], ['syndrome buffer', 'returned count', 'announced dimensions of the code'],
  tech='differential runtime oracle: evaluation over an independent field model', note='Codewords, single errors at every kind of position, sparse, random and saturated words for all codes of the Reed-Solomon and BCH checks.')

P('C43', 'Calls leave no trace in the process besides their results',
  'Creating, copying, using and destroying objects of the library, whatever the input, writes nothing to the standard streams, gives back all memory it obtained, and leaves floating-point control, the pseudo-random stream of the C library, open files, signal dispositions and locale as they were. Buffers handed over for reading keep their content.',
  ['inputs', 'histories'], 'all classes, inputs (also hopeless ones) and call sequences including copies',
  'The tests look at results only; diagnostic output, a leak in a rare branch or a changed rounding mode does not make them fail.',
  ['reed_solomon_error_correction.hh', 'reed_solomon_decoder.hh', 'bose_chaudhuri_hocquenghem_encoder.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'osd.hh', 'galois_field.hh', 'ldpc_decoder.hh', 'polar_freezer.hh', 'polar_list_decoder.hh', 'sort.hh'],
  [('diagnostics behind if (0)', 'reed_solomon_error_correction.hh, bose_chaudhuri_hocquenghem_encoder.hh, osd.hh'), ('buffers inside the objects', 'all classes'), ('tables registered by field instances', 'galois_field.hh: Tables')],
  ['bytes on the standard streams', 'live heap blocks', 'control words', 'C library random stream', 'file descriptors', 'signal dispositions', 'input buffers'],
  tech='runtime monitor of process state around every object life', note='The allocator is instrumented; memory counts as lost when an identical second life loses it again. Memory kept once (a cache) is not reported.')

P('C44', 'Calls outside the stated limits are stopped by an assertion',
  'With assertions enabled a call outside the limits the interface states ends the program instead of delivering a result: message lengths and erasure counts of the Reed-Solomon and BCH codecs, lists of minimal polynomials that do not make a generator of the declared degree, block numbers and lengths of the erasure codes, generator matrices without full rank, polar levels out of range, division by and logarithm of zero, elements out of the field, non-primitive field polynomials, use of a field without or with a second instance. Calls at the limits are carried out.',
  ['inputs', 'configurations'], 'all arguments outside and at the limits of the listed interfaces',
  'A test that ends by an assertion fails, so the existing tests cannot contain one.',
  ['reed_solomon_encoder.hh', 'reed_solomon_decoder.hh', 'bose_chaudhuri_hocquenghem_encoder.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'cauchy_reed_solomon_erasure_coding.hh', 'cauchy_prime_field_erasure_coding.hh', 'osd.hh', 'polar_decoder.hh', 'polar_list_decoder.hh', 'polar_parity_aided.hh', 'polar_freezer.hh', 'polar_sequence.hh', 'galois_field.hh'],
  [('assertions on arguments', 'operator() and constructors of the listed classes'), ('primitivity and single-instance checks', 'galois_field.hh: Tables'), ('pivot check', 'osd.hh: row_echelon')], ['how a child process ends'],
  tech='death monitor: every call in a child of its own', note='Limits that are compile-time assertions are left out: nothing runs there to be observed. Prefixes of the integer range and random values outside, both limits inside.')

P('C45', 'Layered codecs bring the message back',
  'Used together as in a receiver, the parts of the library recover the message sent whenever the damage stays within what each layer guarantees: erasure-coded packets whose damaged copies a CRC sorts out, scrambled Reed-Solomon codewords whose interleaving spreads bursts of errors and erasures evenly, Hadamard, simplex and short BCH words as symbols of an outer Reed-Solomon code, headers of CRC, BCH generator matrix and ordered statistics decoding under a maximum length sequence, LDPC frames with an outer BCH code, and polar lists from which a CRC picks the path. Data that fail their CRC are never delivered as correct.',
  ['inputs', 'configurations'], 'all messages and damage patterns within the guarantees of the layers (light noise for the iterative and list decoders)',
  'The tests exercise every codec alone; bit orders, symbol orders, lengths and failure indications that do not fit each other only show when layers meet.',
  ['crc.hh', 'interleave.hh', 'permute.hh', 'xorshift.hh', 'mls.hh', 'bitstream.hh', 'bitman.hh', 'reed_solomon_decoder.hh', 'bose_chaudhuri_hocquenghem_decoder.hh', 'cauchy_reed_solomon_erasure_coding.hh', 'cauchy_prime_field_erasure_coding.hh', 'hadamard_decoder.hh', 'simplex_decoder.hh', 'short_bch_code_decoder.hh', 'osd.hh', 'ldpc_decoder.hh', 'polar_list_decoder.hh', 'polar_parity_aided.hh'],
  [('common bit and symbol orders', 'bitman.hh, crc.hh, interleave.hh'), ('failure indication of decoders', 'operator() of all decoders')], ['message delivered', 'failure indication of every layer'],
  tech='end-to-end runtime oracle over transmission chains with injected faults', note='Faults are injected within the guarantees: bursts up to the radius of all codewords together, up to 32 damaged bits per packet, sign errors up to the radius of inner blocks, destroyed blocks within the outer radius, light Gaussian noise.')
