FE = ['fbpcf/frontend/Bit_impl.h', 'fbpcf/frontend/BitString_impl.h', 'fbpcf/frontend/Int_impl.h', 'fbpcf/frontend/util.h']
prop('F01', 'Bits and bit strings compute their plaintext operation and own their wires',
     'AND, XOR, OR, NOT, composite AND, multiplexing, input, opening, reading, and share extraction and recovery on Bit and BitString give, for every value, secret or public operand and single or batched form, the plaintext bit(s) in order; strings of different lengths are rejected. Every live Bit holds exactly one reference of its wire however bits are copied, moved, assigned (to themselves too) or destroyed: no wire is lost early or leaked.',
     ['inputs', 'histories', 'configurations'], 'every value, batch size, secrecy combination; every special member on empty and set bits',
     'tests fix a few values and do not look at reference counts along copies, moves and self assignment',
     FE[:2], [('operators choose the scheduler call by secrecy and batching', FE[0]), ('special members count references', FE[0])],
     'bits proved for any batch size; strings proved per length 0, 1, 3 (bounded and labelled); scheduler through the ghost contract in specs/sched_ghost.py')
prop('F02', 'Int operations agree with machine integers of the same width',
     'For every width and signedness, secret or public operands, single or batched: +, -, unary minus, <, <=, >, >=, ==, mux, max, min and abs on Int give the result of the same operation on two\'s complement (or unsigned) integers of that width, wrapping modulo 2^width, for every pair of values.',
     ['inputs', 'configurations'], 'every pair of values at 13 widths from 1 to 64, both signednesses, all secrecy combinations, any batch size',
     'tests sample small random values at a few widths; carries and borrows at the word edges and odd widths are missed',
     [FE[2], 'fbpcf/frontend/Int.h', FE[3]], [('ripple-carry addition, comparison and mux circuits', FE[2])],
     'proved for all values at widths 1-5,7,8,16,31,32,33,63,64; batches of any size at widths 1,2,4,8,64; scheduler through its ghost contract')
prop('F03', 'Inputs, outputs, casts and rebatching of typed values are exact',
     'A value in range for its Int type is represented exactly and out-of-range values are rejected; opening, reading, extracting and recovering shares give back the same value bit for bit and reach the named party; casts truncate or extend by the sign; bits are addressed little-endian and positions beyond the width are rejected. Batching joins batches in order and unbatching by the given sizes returns exactly the parts, for Bit, BitString and Int.',
     ['inputs', 'configurations'], 'every value and width under contract, any batch size, one to three batches of any sizes',
     'tests use a few values; edges of the ranges, sign extension at odd widths and uneven batch sizes are not covered',
     FE, [('conversion between numbers and bits with range checks', FE[3] + ', ' + FE[2]), ('batchingWith and unbatching', FE[0] + ', ' + FE[1] + ', ' + FE[2])],
     'values and casts proved per width for any batch size; rebatching proved for any sizes of one to three batches (number of batches bounded)')
