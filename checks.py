"""What each check builds and runs.  A unit is one harness program; 'parts' splits it
into several translation units so that it compiles and runs in parallel."""


def U(src, parts=1, variants=('prod',), section=None, shards=1, scale=1.0, defs=(), thorough_variants=(), thorough_shards=None, **kw):
    return dict(src=src, parts=parts, variants=variants, section=section, shards=shards, scale=scale, defs=list(defs),
                thorough_variants=thorough_variants, thorough_shards=thorough_shards, **kw)


CHECKS = {}


def check(prop, units, rule, **kw):
    CHECKS[prop] = dict(units=units, rule=rule, **kw)


def jobs(prop, tier):
    out = []
    for u in CHECKS[prop]['units']:
        vs = list(u['variants']) + (list(u['thorough_variants']) if tier == 'thorough' else [])
        parts = u['parts'] if isinstance(u['parts'], (list, tuple, range)) else range(u['parts'])
        for v in vs:
            for p in parts:
                j = {k: u[k] for k in u if k not in ('parts', 'variants', 'thorough_variants', 'thorough_shards')}
                j['variant'] = v
                j['defs'] = ['-DPART=%d' % p] + u['defs']
                j['name'] = '%s.%s%s' % (u['src'] if isinstance(u['src'], str) else '+'.join(u['src']), p, ''.join('.' + d[9:] for d in u['defs'] if d.startswith('-DHEADER')))
                if tier == 'thorough' and u['thorough_shards']:
                    j['shards'] = u['thorough_shards']
                out.append(j)
    return out


# ---------------------------------------------------------------- algebraic codes
check('C01', [U('rs.cc', 9, section='C', scale=3, thorough_shards=4, thorough_variants=('asan', 'gcc'))],
      'A case is a code configuration (field polynomial, symbol type, redundancy, first root), a shortened length, a random or '
      'structured codeword made by an independent encoder and an error/erasure pattern with 2*errors+erasures<=redundancy; it is '
      'non-trivial when at least one symbol is wrong or erased; distinct by received word, erasures and code.',
      floor=dict(within_radius_decodes=50000, double_error_pairs=10000, sparse_syndrome_patterns=10000))
check('C02', [U('rs.cc', 9, section='V', scale=4, thorough_shards=4, thorough_variants=('asan', 'gcc'))],
      'A case is an arbitrary received word (any number of errors, random, crafted syndrome shapes, or every coset of a small code) '
      'with or without erasures; the verdict is compared with an independent syndrome computation on the output; distinct by received '
      'word, erasures and code.',
      floor=dict(verdict_failure=3000, verdict_corrected=3000, crafted_syndromes=3000, cosets_enumerated=10000))
check('C03', [U('rs.cc', 9, section='E', scale=10, thorough_shards=2, thorough_variants=('gcc',))],
      'A case is a message of any allowed length (random, sparse, constant, single symbol) for one code configuration; the parity is '
      'compared with schoolbook polynomial division by an independently expanded generator; distinct by message and code.',
      floor=dict(evaluations=4000))
check('C04', [U('bch.cc', 7, section='C', scale=4, thorough_shards=4, thorough_variants=('asan', 'gcc'))],
      'A case is a binary BCH configuration (field, consecutive roots, first root), packed or one-symbol-per-bit interface, a shortened '
      'length, a codeword made by independent division and an error/erasure pattern with 2*errors+erasures<=roots; non-trivial when at '
      'least one bit is wrong or erased; distinct by received word, erasures, code and interface.',
      floor=dict(within_radius_decodes=40000, double_error_pairs=10000))
check('C05', [U('bch.cc', 7, section='V', scale=3, thorough_shards=4, thorough_variants=('asan', 'gcc'))],
      'A case is an arbitrary received word (every coset of codes with at most 16 parity bits, random error weights, erasures); the '
      'output is judged by independent division by the generator; distinct by received word, erasures, code and interface.',
      floor=dict(verdict_failure=5000, verdict_corrected=5000, cosets_enumerated=50000))
check('C06', [U('bch.cc', 7, section='E', scale=20, thorough_shards=2, thorough_variants=('gcc',))],
      'A case is a message of any allowed length for one generator; both encoder interfaces are compared with schoolbook division by '
      'the product of independently derived minimal polynomials; distinct by message bits and code.',
      floor=dict(evaluations=8000))
check('C07', [U('gf.cc', range(0, 6), thorough_shards=2, thorough_variants=('asan', 'gcc'))],
      'A case is a pair (or a triple, for multiply-add) of field elements in one of the fields; in fields up to 2^9 every pair and every '
      'single operand is visited (all primitive polynomials up to degree 8), larger fields: all single operands, all corner rows, all '
      'index sums around the modulus, random pairs; judged by carry-less schoolbook multiplication; distinct by field and operands '
      '(counted per row in the exhaustive fields).',
      floor=dict(evaluations=2000000, fields=40, fields_with_all_pairs=40, reference_fields=10))
check('C08', [U('gf.cc', range(6, 7), thorough_shards=8, thorough_variants=('asan', 'gcc'))],
      'A case is a pair of residues (all pairs for primes up to 1024, corners and random pairs above) or a base and an exponent; judged '
      'by 128 bit integer arithmetic; distinct by prime and operands.',
      floor=dict(evaluations=1000000, prime_fields=15, prime_fields_with_all_pairs=8))
check('C09', [U('era.cc', range(0, 3), section='R', thorough_shards=4, thorough_variants=('sse', 'gen', 'asan'))],
      'A case is a field, a number of data blocks, a block length and a choice of as many distinct block identifiers (every subset in the '
      'small fields, first/last/random ones in the large), data random or structured; every (or several) data block is decoded and '
      'compared with the original; distinct by data and identifiers.',
      floor=dict(evaluations=20000, subsets_enumerated=10000))
check('C10', [U('era.cc', range(0, 3), section='S', variants=('prod', 'sse', 'gen'), thorough_shards=2),
              U('era.cc', range(0, 3), section='S', variants=('neon',), scale=0.25, thorough_shards=2, thorough_variants=('neon64',))],
      'A case is a call with chosen start offsets of the buffers (0..31 bytes), length, interface and build (AVX2, SSE4.1, NEON '
      'emulation, scalar); the block must be byte-identical to the Cauchy combination computed by an independent field model; in GF(256) '
      'every identifier meets every symbol value on the vector path; distinct by data, identifier, length and offsets.',
      floor=dict(evaluations=100000, aligned_cases=5000, unaligned_cases=5000, identifiers_with_all_values=500),
      assumptions=['NEON code is executed through an emulation of the arm_neon.h intrinsics (h/neon), not on ARM hardware'])
check('C11', [U('era.cc', range(3, 5), thorough_shards=4, thorough_variants=('gen', 'asan', 'gcc'))],
      'A case is a prime field, number of data blocks, length, distinct identifiers and data (random, constant, maximal, a ramp, or solved '
      'so that the largest field value appears in a block); decoded blocks are compared with the originals and encoded blocks with the '
      'Cauchy combination modulo the prime; distinct by data, identifiers and length.',
      floor=dict(evaluations=10000, substituted_symbols=1000))
# ---------------------------------------------------------------- building blocks
check('C12', [U('util.cc', range(0, 1), thorough_shards=8, thorough_variants=('asan', 'gcc'))],
      'A case is a register width, polynomial, start value and a random sequence of feeds (bits, bytes, 16/32/64 bit words, resets, '
      'copies), compared after every feed with a bit-by-bit polynomial division; plus every byte against every low register byte for '
      'several polynomials and published check values; distinct by the whole feed sequence.',
      floor=dict(evaluations=500000, resets=1000, feeds_in_turns=100000, tables_with_all_bytes=20))
check('C28', [U('util.cc', range(3, 4), thorough_shards=2, thorough_variants=('asan', 'gcc'))],
      'A case is a size (and interleaving depth) with a symbol type and random content; the result must be the documented permutation '
      'and the inverse must restore the content, in both orders and on reused objects; distinct by size, depth and type.',
      floor=dict(evaluations=300))
check('C26', [U('util.cc', range(4, 5), shards=4, thorough_shards=8, thorough_variants=('asan', 'gcc'))],
      'A case is a key sequence (every length up to the capacity; all sequences of up to 9 keys over 2-4 values; sorted, reversed, '
      'constant, extreme, random) sorted by every entry point and compared with std::stable_sort on records that carry their origin; '
      'distinct by keys, capacity and run length.',
      floor=dict(evaluations=10000, sequences_enumerated=10000, long_sequences=30))
check('C29', [U('util.cc', range(1, 2), shards=4, thorough_shards=8, thorough_variants=('asan', 'gcc'))],
      'A case is one operation of a random history of reads, writes, seeks and resets at any bit offset on a container of one of eleven '
      'sizes, or one bit operation on a byte array; after every operation the whole content, position and returned value are compared '
      'with a vector of bits; distinct by the history so far.',
      floor=dict(evaluations=500000))
check('C30', [U('util.cc', range(2, 3), shards=2, thorough_shards=8, thorough_variants=('asan', 'gcc'))],
      'A case is a generator with a seed (default, random, single bit) of which the outputs are compared with an independent recurrence, '
      'or a feedback polynomial with a start register (all up to degree 11, random up to degree 29) whose sequence and '
      'maximum-length verdict are compared with an independent register and an order computation; distinct by seed or polynomial.',
      floor=dict(evaluations=100000, primitive_polynomials=300, other_polynomials=2000, long_run_outputs=1000000, whole_periods=8))
check('C32', [U('util.cc', range(5, 6), thorough_shards=4, thorough_variants=('asan', 'gcc'))],
      'A case is an operation (sums, products, minima, maxima, logic, min-sum, gcd), a length from 2 to 301 and random input; every '
      'output is compared with the direct reduction of the other inputs; distinct by input and operation.',
      floor=dict(evaluations=20000, work_measured=40))
NEON = 'NEON code is executed through an emulation of the arm_neon.h intrinsics (h/neon), not on ARM hardware'
check('C25', [U('simd.cc', range(0, 10), variants=('prod', 'sse', 'gen', 'neon'), section='O', defs=['-DONLY_OPS'], thorough_shards=2, thorough_variants=('neon64', 'gcc', 'gccgen', 'o3', 'O0'))],
      'A case is an operation, lane type, width (one lane, three, and one to eight native registers) and build with random or corner '
      'operands, for bytes every pair of values; every lane is compared with the scalar definition; distinct by operands and width.',
      floor=dict(evaluations=8000000, type_width_pairs=280, byte_tables=60), assumptions=[NEON])
check('C27', [U('simd.cc', range(0, 10), variants=('prod', 'gen'), section='S', defs=['-DONLY_SORT'], thorough_shards=2, thorough_variants=('sse', 'neon', 'gcc', 'asan'))],
      'A case is a vector of keys (every sequence over three values for up to eight lanes; random, tied, sorted, reversed, extreme ones up '
      'to eight registers) of one lane type; values and order are compared with std::stable_sort; distinct by keys and width.',
      floor=dict(evaluations=100000, orders_with_ties=50000, sequences_enumerated=100000))
check('C31', [U('simd.cc', range(10, 12), variants=('prod', 'sse', 'gen', 'neon', 'neon64'), thorough_shards=4, thorough_variants=('gcc', 'asan', 'asan_sse', 'O0'))],
      'A case is a lane type, register size, active width (all of them), shift (all of them, then random walks on one object and its '
      'copies) and content; every active lane is located in the result; distinct by content, width and shift.',
      floor=dict(evaluations=50000, widths_with_all_shifts=600), assumptions=[NEON])
# ---------------------------------------------------------------- soft decision codes
check('C13', [U('soft.cc', range(0, 1), thorough_shards=8, thorough_variants=('asan', 'gcc'))],
      'A case is a soft input vector (all vectors over small alphabets for the small codes; random, tied, constant, extreme and codeword-'
      'shaped ones up to the largest), or a message to encode; judged by the correlation with every codeword; distinct by code and input.',
      floor=dict(evaluations=20000, ties=2000, unique_maxima=5000, codewords=200))
check('C14', [U('soft.cc', range(1, 2), thorough_shards=8, thorough_variants=('asan', 'gcc'))],
      'A case is a soft input vector (all vectors over small alphabets for the small codes; random, tied, constant, extreme and codeword-'
      'shaped ones up to the largest), or a message to encode; judged by the correlation with every codeword; distinct by code and input.',
      floor=dict(evaluations=20000, ties=2000, unique_maxima=5000, codewords=100))
check('C15', [U('soft.cc', range(2, 5), thorough_shards=4, thorough_variants=('asan', 'gcc'))],
      'A case is a message, a hard word (every word of the small codes, every correctable pattern of the others) or a soft input; judged '
      'by nearest codewords, exhaustive likelihood (small codes) or an independent search over flips of the least reliable bits; '
      'distinct by code and input; soft inputs whose set of least reliable bits is ambiguous are judged only by the codeword check.',
      floor=dict(hard_corrections=10000, hard_failures=5000, soft_unique=5000, soft_ties=200, flat_radius_corrections=1000))
check('C16', [U('osd.cc', 4, section='D', thorough_shards=4, thorough_variants=('asan', 'gcc'))],
      'A case is a generator matrix of full rank (random, systematic, dependent columns, BCH), an order and a soft input (noisy, tied, '
      'zero, extreme); the best candidate is found by an independent Gaussian elimination on the most reliable positions; judged exactly '
      'when that basis is unique or the order reaches the dimension, otherwise for being a codeword; distinct by matrix, order, input.',
      floor=dict(basis_settled=1000, unique_optimum=1000, shared_optimum=100))
check('C17', [U('osd.cc', 4, section='L', thorough_shards=4, thorough_variants=('asan', 'gcc'))],
      'A case is a generator matrix, order, list size not above the number of candidates and a soft input; the list is compared with the '
      'full enumeration of candidates; distinct by matrix, order and input.',
      floor=dict(lists=1000, lists_with_negative_scores=50))
check('C18', [U('ldpc.cc', 7, section='E', thorough_shards=2, thorough_variants=('gcc', 'asan'))],
      'A case is a code table (synthetic ones of many shapes, DVB A1 A3 A6 B7) and a message with a random previous parity buffer; every '
      'check of a matrix expanded independently is evaluated; distinct by table and message.',
      floor=dict(checks_evaluated=100000))
check('C19', [U('ldpc.cc', 7, section='D', variants=('prod', 'sse'), thorough_shards=2, thorough_variants=('gen', 'neon', 'gcc', 'asan'))],
      'A case is a table, iteration limit, number of words in parallel and soft inputs (clean, mild noise, heavy noise, zeros, extremes, '
      'random), on a reused decoder; the verdict is judged by an independent matrix, the soft outputs by a scalar model of the layered '
      'schedule; distinct by table and input.',
      floor=dict(rule_compared=3000, verdict_success=5000, verdict_failure=3000, rule_compared_twins=1000, clean_words=500, repeated_calls=1000))
check('C20', [U('polar.cc', range(0, 1), section='E', thorough_shards=4, thorough_variants=('gen', 'asan', 'gcc'))],
      'A case is a length, frozen set (all sets and messages up to length 8) and message for the plain, systematic or parity-aided '
      'encoder and a value type; the codeword is compared with the polar transform; distinct by type, frozen set, message and parity rule.',
      floor=dict(encoded=20000, systematic_encoded=3000))
check('C21', [U('polar.cc', range(0, 1), section='K', thorough_shards=4, thorough_variants=('gen', 'asan', 'gcc'))],
      'A case is a length, an erasure probability and a number of information bits or threshold; judged by the recursion in extended '
      'precision; distinct by these parameters.',
      floor=dict(constructed=200, sequences=200, freezers=200, exact_freezers=20))
check('C22', [U('polar.cc', range(1, 3), section='S', thorough_shards=4, thorough_variants=('sse', 'gen', 'asan', 'gcc'))],
      'A case is a length, frozen set and soft input of one lane; every decision outside open subtrees is compared with a plain '
      'successive cancellation over all positions; distinct by frozen set and input.',
      floor=dict(decisions_compared=100000, fully_settled=2000, clean_decoded=200, leaf_patterns=10000, level_20=3, level_17=3, level_12=3))
check('C23', [U('polar.cc', (3, 4, 7), section='L', thorough_shards=4, thorough_variants=('sse', 'gen', 'asan', 'gcc'))],
      'A case is a length, frozen set, list size and soft input; penalties are recomputed for every returned message, survivors by a '
      'plain list decoder over full path states, complete lists by enumerating the code; distinct by frozen set and input.',
      floor=dict(lists=2000, survivors_compared=1000, complete_lists=80, clean_decoded=200, rank_ties=1000, rank_steps=1000))
check('C24', [U('polar.cc', range(0, 1), section='E', thorough_shards=2),
              U('polar.cc', (5, 6, 8), section='P', thorough_shards=4, thorough_variants=('sse', 'gen', 'asan', 'gcc'))],
      'A case is a length, frozen set, stride, first parity position and a message to encode or a soft input to decode; judged as for '
      'plain lists, with the parity positions filled in by the rule; distinct by these.',
      floor=dict(parity_encoded=10000, aided_lists=2000, survivors_compared=1000, complete_lists=80, clean_decoded=200))
check('C40', [U('gen.cc', 2, scale=10, thorough_shards=4, thorough_variants=('asan', 'gcc', 'O0'))],
      'A case is a list of minimal polynomials with a code size and previous buffer content, or a matrix (random of any density, identity, '
      'constant, one entry) with a message; judged by schoolbook multiplication and division; distinct by polynomials, matrix and message.',
      floor=dict(generators=400, encoded=20000))
check('C41', [U('helper.cc', 1, variants=('prod', 'sse', 'gen', 'neon'), thorough_shards=4, thorough_variants=('neon64', 'asan', 'gcc', 'gccgen', 'O0'))],
      'A case is a primitive with operands in one value type (all pairs for bytes, corners, random values of exactly representable sums); '
      'every lane is compared with the scalar definition; distinct by operands.',
      floor=dict(evaluations=20000000, vector_types=100, types=20, quantisers=12), assumptions=[NEON])
# ---------------------------------------------------------------- the whole library
check('C33', [U('hist.cc', range(0, 8), variants=('prod', 'gen'), thorough_shards=4, thorough_variants=('sse', 'neon', 'gcc', 'asan', 'O0'))],
      'A case is a call of an object with a random history of calls (clean, noisy, hopeless inputs, copies, assignments) in memory and '
      'with output buffers of random previous content; its outputs are compared with those of a fresh object in other memory; distinct '
      'by class, input and history.',
      floor=dict(evaluations=300000, classes=250, histories=25000, copies=30000), assumptions=[NEON])
check('C39', [U('digest.cc', (0, 1, 2, 3, 5, 6, 7), variants=('prod', 'sse', 'gen', 'neon', 'gcc'), thorough_shards=4, thorough_variants=('neon64', 'gccgen', 'O0', 'o3')),
              # which of two links that meet in one vector comes first is up to std::sort: one standard library only
              U('digest.cc', (4,), variants=('prod', 'sse', 'gen', 'neon'), thorough_shards=4, thorough_variants=('neon64', 'O0', 'o3'))],
      'A case is a class of the catalogue with an input; the outputs of all builds are compared; distinct by class and input.',
      floor=dict(evaluations=100000, outputs_compared_across_builds=150000), assumptions=[NEON])
# ---------------------------------------------------------------- memory and undefined behaviour
# functional verdicts are left to the checks above (only='memory')
MEM = dict(only='memory', scale=0.15, thorough_shards=2, cost=3)
VG = dict(only='memory', variants=('vg',), scale=0.1, thorough_shards=2, cost=4)
SAN = ['AddressSanitizer and UndefinedBehaviorSanitizer judge the executed paths only',
       'valgrind tells a read of undefined memory when a branch, an address or an output depends on it']
WHAT = ('A case is a call of the real code in an AddressSanitizer+UndefinedBehaviorSanitizer build with redzones around exactly sized '
        'buffers, or under valgrind with previous memory content marked undefined; the workloads are those of the functional checks; '
        'a violation is a sanitizer or valgrind report, a crash, an assertion, a hang or a write outside; distinct by input.')
check('C34', [U('rs.cc', 9, variants=('asan',), thorough_variants=('asan_gen',), **MEM), U('bch.cc', 7, variants=('asan',), thorough_variants=('asan_gen',), **MEM),
              U('gf.cc', 7, variants=('asan',), thorough_variants=('asan_gen',), **MEM), U('era.cc', 5, variants=('asan',), **MEM),
              U('era.cc', range(0, 3), variants=('asan_gen', 'asan_sse'), **MEM), U('hist.cc', range(0, 3), **VG)],
      WHAT, floor=dict(evaluations=1000000, calls=5000), assumptions=SAN)
check('C35', [U('soft.cc', 5, variants=('asan',), thorough_variants=('asan_gen',), **MEM), U('osd.cc', 4, variants=('asan',), thorough_variants=('asan_gen',), **MEM), U('gen.cc', 2, variants=('asan',), **MEM),
              U('ldpc.cc', 7, variants=('asan',), thorough_variants=('asan_gen', 'asan_sse'), **MEM),
              U('polar.cc', 9, variants=('asan',), thorough_variants=('asan_gen', 'asan_sse'), **MEM), U('hist.cc', range(3, 7), **VG)],
      WHAT, floor=dict(evaluations=200000, calls=3000), assumptions=SAN)
check('C36', [U('util.cc', 6, variants=('asan',), thorough_variants=('asan_gen',), **MEM),
              U('simd.cc', 12, variants=('asan',), thorough_variants=('asan_gen', 'asan_sse'), **MEM),
              U('helper.cc', 1, variants=('asan',), **MEM), U('hist.cc', range(7, 8), variants=('asan', 'asan_gen'), **MEM), U('hist.cc', range(7, 8), **VG)],
      WHAT, floor=dict(evaluations=1000000, calls=5000), assumptions=SAN)
# ---------------------------------------------------------------- threads, translation units
check('C37', [U('threads.cc', 9, variants=('tsan', 'prod'), thorough_variants=('gen', 'gcc'), thorough_shards=4, cost=3)],
      'A case is a round in which six threads construct and use objects of one class or of a mixture, with random delays; outputs are '
      'compared with those of a single thread afterwards and ThreadSanitizer watches all accesses; distinct by the order in which the '
      'calls of the threads started.',
      floor=dict(evaluations=200000, calls_overlapped_by_other_threads=20000, classes=250, mixed_rounds=1000),
      assumptions=['the interleavings are those the scheduler and the injected delays produced; ThreadSanitizer also reports races that did not change an output'])
PUBLIC = ('bitman bitstream bose_chaudhuri_hocquenghem_decoder bose_chaudhuri_hocquenghem_encoder cauchy_prime_field_erasure_coding '
          'cauchy_reed_solomon_erasure_coding crc exclusive_reduce galois_field hadamard_decoder hadamard_encoder interleave ldpc_decoder '
          'ldpc_encoder mls osd permute polar_decoder polar_encoder polar_freezer polar_helper polar_list_decoder polar_parity_aided '
          'polar_sequence prime_field reed_solomon_decoder reed_solomon_encoder reed_solomon_error_correction rotate short_bch_code_decoder '
          'short_bch_code_encoder simd simd_sort simplex_decoder simplex_encoder sort xorshift').split()
BUILD = dict(compile_is_verdict=True)
check('C38', [U(['unit_a.cc', 'unit_b.cc'], 8, variants=('prod',), thorough_variants=('sse', 'gen', 'neon', 'neon64', 'gcc', 'gccgen'), defs=['-O0'], cost=3, **BUILD),
              U(['unit_a.cc', 'unit_b.cc'], (2, 4, 6, 7), variants=('sse', 'gen', 'neon'), defs=['-O0'], cost=3, **BUILD),
              U(['unit_a.cc', 'unit_b.cc'], 8, variants=('arm',), shards=0, **BUILD),
              U('simd.cc', 12, variants=('sse', 'gen', 'neon', 'arm'), thorough_variants=('prod', 'neon64', 'gcc', 'gccgen'), defs=['-O0'], shards=0, cost=2, **BUILD)] +
             [U('one_header.cc', 1, variants=('prod', 'gen', 'arm'), thorough_variants=('sse', 'neon', 'neon64', 'gcc', 'gccgen'), defs=['-O0', '-DHEADER="%s.hh"' % h], shards=0, **BUILD) for h in PUBLIC],
      'A case is a call of a class made from two translation units of one program, with the headers included in opposite orders; besides, '
      'every public header alone and twice, and every vector operation for every width, is compiled for every instruction set; a failure '
      'to compile or to link, or a difference between the units, is the violation; distinct by input.',
      floor=dict(evaluations=5000, classes_used_in_two_units=120, programs_linked_or_compiled=100), assumptions=[NEON])
check('C42', [U('rs.cc', 9, section='Y', scale=3, thorough_shards=2, thorough_variants=('asan', 'gcc')), U('bch.cc', 7, section='Y', scale=3, thorough_shards=2, thorough_variants=('asan', 'gcc'))],
      'A case is a code, an allowed length and a received word (zero, one symbol, codeword, codeword with few errors, random, saturated); '
      'every syndrome, the count, all interfaces and the announced dimensions are compared with evaluation over a table-free field model; '
      'distinct by word and code.',
      floor=dict(evaluations=60000, constants_checked=150, all_syndromes_zero=10000, some_syndromes_zero=2000, no_syndrome_zero=10000))
SILENT = dict(only='output', scale=0.2, cost=2)
check('C43', [U('effects.cc', 8, thorough_shards=4, thorough_variants=('gen', 'sse', 'gcc')),
              U('rs.cc', (0, 8), **SILENT), U('bch.cc', (0,), **SILENT), U('osd.cc', (0,), **SILENT), U('ldpc.cc', (0,), **SILENT), U('polar.cc', (1, 3), **SILENT)],
      'A case is the life of an object of the catalogue: made, copied, used on one to eight inputs, destroyed, with the state of the process '
      'recorded before and after; besides, the workloads of other checks run with their standard streams watched; distinct by class and inputs.',
      floor=dict(evaluations=200000, classes=130, lives=50000, allocations_watched=1000000, input_buffers_compared=20000, fields_made_and_destroyed=200, silent_runs=7),
      assumptions=['sticky floating-point exception flags are not part of the state that is compared'])
check('C44', [U('misuse.cc', 4, thorough_variants=('gcc', 'gen', 'O0'))],
      'A case is one call in a child process, outside a limit (has to end by an assertion) or at it (has to deliver); distinct by call and '
      'arguments.',
      floor=dict(misuses=4000, uses_at_the_limit=1500, primitive_polynomials=20, other_polynomials=100, matrices_of_lower_rank=200, matrices_of_full_rank=150))
check('C45', [U('chain.cc', 4, thorough_shards=4, thorough_variants=('sse', 'gen', 'neon', 'gcc', 'asan'))],
      'A case is a transmission: a random message through the encoders of a chain, a fault pattern drawn within the guarantees of its layers, '
      'and the decoders of the chain; distinct by what was received.',
      floor=dict(evaluations=40000, files=1000, packets_damaged=5000, codewords_within_radius=30000, nested_words=8000, inner_blocks_at_the_radius=100000, headers=500,
                 frames=400, frames_with_residual_errors=100, polar_frames=2500, picked_by_crc=10))
