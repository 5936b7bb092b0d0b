T = 'fbpcf/engine/tuple_generator/'
O = T + 'oblivious_transfer/'
FT = O + 'ferret/'
prop('T01', 'Boolean multiplication tuples multiply, however they are requested',
     'For 2 or more parties that make the same requests, every boolean tuple they get, normal or composite of any width, satisfies (xor of a) and (xor of b) = xor of c, bit by bit. Any sequence of requests of any sizes is served with exactly the number asked for, tuples are handed out once and in the order generated, whatever the buffer size, and composite tuples come keyed by the widths requested. Generators without composite support refuse them.',
     ['inputs', 'histories', 'configurations'], 'every share value, request history, buffer size and composite width; product-share generators (n parties) and correlated OT (two parties)',
     'tests check a few fixed requests; a wrong tuple at a buffer edge or one composite width makes wrong results only there',
     [T + x for x in ('TupleGenerator.cpp', 'TwoPartyTupleGenerator.cpp', 'ITupleGenerator.h', 'NullTupleGenerator.h')] + ['fbpcf/engine/util/AsyncBuffer.h', 'fbpcf/engine/util/util.h'],
     [('own product plus pairwise product shares', T + 'TupleGenerator.cpp: generateTuples'), ('hash of correlated OT messages gives a, b, c', T + 'TwoPartyTupleGenerator.cpp: expandRCOTResults'),
      ('chunked buffer', 'fbpcf/engine/util/AsyncBuffer.h: getData')],
     'tuple algebra proved for any number of tuples (product shares for 2, 3, 4 parties; composite widths 1, 2, 64, 65, 128 for any number of OTs and any width for up to 3 OTs, labelled bounded); buffer proved by an inductive loop contract for any history; hash and bit generator uninterpreted')
prop('T02', 'Product shares and integer tuples multiply modulo 2^64',
     'For every pair of parties, the outputs of the product share generator add up (xor for bits, sum modulo 2^64 for integers) to left0*right1 + left1*right0 position by position, for batches of any size, and operands of unequal length are rejected. Integer tuples of any number of parties satisfy (sum of a)*(sum of b) = sum of c modulo 2^64, for any sequence and size of requests; each tuple is handed out once and in order.',
     ['inputs', 'histories', 'configurations'], 'every operand value, batch size, request history and buffer size; 2, 3, 4 parties',
     'tests use a few random operands and one request size',
     [T + x for x in ('ProductShareGenerator.cpp', 'DummyProductShareGenerator.cpp', 'ArithmeticTupleGenerator.cpp', 'IArithmeticTupleGenerator.h')] + ['fbpcf/engine/util/AsyncBuffer.h'],
     [('one oblivious transfer per bit of the right operand', T + 'ProductShareGenerator.cpp'), ('own product plus pairwise product shares', T + 'ArithmeticTupleGenerator.cpp')],
     'proved for any batch size; the integer product shares by a loop contract over 64-bit blocks and ring normalisation; oblivious transfer and generators through ghost contracts')
prop('T03', 'Every oblivious transfer delivers exactly the chosen correlated message',
     'In a bidirectional transfer each party receives, position by position, the message of the other party selected by its own choice bit (bits or 64-bit integers, any batch size). In a correlated transfer (base OT extended by IKNP, or by Ferret) for any sequence of request sizes the receiver\'s block equals the sender\'s block, or that block xor delta exactly where its choice bit, the low bit, is set; the sender\'s low bits are 0. A delta whose low bit is 0 is rejected. Base OT gives the receiver the key of its choice.',
     ['inputs', 'histories', 'configurations'], 'every message, choice, delta, batch size and sequence of request sizes',
     'tests use one or two fixed sizes; errors at block edges (multiples of 128, buffer ends) or for a particular choice pattern escape them',
     [O + x for x in ('RcotBasedBidirectionObliviousTransfer.cpp', 'IknpShRandomCorrelatedObliviousTransfer.cpp', 'ExtenderBasedRandomCorrelatedObliviousTransfer.cpp', 'NpBaseObliviousTransfer.cpp')] + ['fbpcf/engine/util/Masker_impl.h'],
     [('corrections from masked choices', O + 'RcotBasedBidirectionObliviousTransfer.cpp'), ('matrix transpose of generator outputs', O + 'IknpShRandomCorrelatedObliviousTransfer.cpp'),
      ('buffered extension', O + 'ExtenderBasedRandomCorrelatedObliviousTransfer.cpp')],
     'bidirectional transfer proved for any batch size, both parties run against each other on ghost channels; correlated and base OT are decided by the replay battery on the compiled code as far as no proof task covers them (evidence lists the tasks)')
prop('T04', 'Ferret building blocks keep the correlation at every position',
     'For every tree depth and number of blocks: the vectors of sender and receiver of a single (or regular multi-) point correlated OT agree everywhere except at the receiver\'s secret position (one per block), where they differ by delta; low bits of the sender\'s outputs are 0 and the receiver\'s low bit marks the position. Multiplying by the random sparse matrix is linear in the input and the same for both parties given the seed, so the extended correlation holds at all positions. Base material of the wrong size or a delta with low bit 0 is rejected.',
     ['inputs', 'histories', 'configurations'], 'every delta, base correlation, depth, weight and number of extensions',
     'tests use one parameter set; the position depends on random choice bits and the tree index',
     [FT + x for x in ('SinglePointCot.cpp', 'RegularErrorMultiPointCot.cpp', 'RcotExtender.cpp', 'TenLocalLinearMatrixMultiplier.cpp')] + ['fbpcf/engine/util/util.cpp'],
     [('GGM tree layer by layer with one missing key', FT + 'SinglePointCot.cpp'), ('ten-local linear map', FT + 'TenLocalLinearMatrixMultiplier.cpp'), ('combination', FT + 'RcotExtender.cpp')],
     'tree construction proved per depth (bounded and labelled) over an uninterpreted key expansion; the rest decided by the replay battery on the compiled code')
