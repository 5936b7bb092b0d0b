L = 'fbpcf/mpc_std_lib/'
UL = L + 'util/'
prop('U01', 'Fixed-width integers wrap modulo 2^width, bit conversions lose nothing',
     'A plaintext integer type of any width from 1 to 64, signed or unsigned, holds exactly the values of that width: a value outside is rejected, and sum, difference and negation are the mathematical ones reduced modulo 2^width into the value range, for every operand, without throwing. The bit representation of an integer, a 32-bit word or an aggregation value (count, then value) has one bit per position, lowest first; reading it back gives the same value, for negative values too; more bits than the width are rejected (for aggregation values, any other number than 64). A value generated from a key is the value of its low bits. Aggregation values add, subtract, negate and compare component by component modulo 2^32. The vector helpers add and exclusive-or position by position and reject unequal lengths; map applies its function to every element and reduce folds from left to right and rejects an empty vector.',
     ['inputs'], 'every width, every value, every length',
     'tests use signed 15- and 16-bit sums and differences of random values; other widths, unsigned types, the smallest value, negation and the bit representations are not run at all',
     [UL + x for x in ('Intp_impl.h', 'uint32_impl.h', 'aggregationValue_impl.h')] + ['fbpcf/common/FunctionalUtil.h', 'fbpcf/common/VectorUtil.h'],
     [('range and rounding', UL + 'Intp_impl.h: validateValue, round'), ('bits', UL + 'Intp_impl.h: convertToBits, convertFromBits'), ('element by element', 'fbpcf/common/VectorUtil.h')],
     'every width and sign instantiated and proved for all values; the word conversion by an inductive loop contract; vectors of any length; reduce up to 5 elements')
prop('L01', 'The AES circuit computes AES',
     'For any number of blocks and any eleven round keys, encryption in the circuit gives each block the AES-128 encryption under those round keys, and decryption with the round keys of the equivalent inverse cipher gives back the plaintext, each block on its own, byte by byte with the highest bit first. The substitution circuit is the AES substitution on all 256 bytes and its inverse circuit the inverse, the column mixing is the multiplication by the AES matrix (its inverse), the row shift moves row r by r columns (back). Counter mode gives the text exclusive-or the encryption of the counters, the same for encryption and decryption. A text that is not a whole number of blocks, a key that is not eleven round keys, or counters of another size than the text are rejected.',
     ['inputs'], 'every text, key and number of blocks; plain bits and batches of secret bits',
     'the tests of encryption with real keys do not run here reliably; the boxes are tested on sixteen of 256 bytes and six columns, and one wrong gate can show on few inputs',
     [L + 'aes_circuit/' + x for x in ('AesCircuit_impl.h', 'AesCircuit.h', 'IAesCircuit.h', 'IAesCircuitCtr.h', 'AesCircuitCtr_impl.h', 'AesCircuitCtr.h', 'AesCircuitFactory.h', 'AesCircuitCtrFactory.h')],
     [('substitution', L + 'aes_circuit/AesCircuit_impl.h: sBoxInPlace, inverseSBoxInPlace, sharedSBoxInPlace'), ('mixing', L + 'aes_circuit/AesCircuit_impl.h: mixColumnsInPlace'), ('rounds', L + 'aes_circuit/AesCircuit_impl.h: encrypt_impl, decrypt_impl'), ('counter mode', L + 'aes_circuit/AesCircuitCtr_impl.h')],
     'boxes, mixing and shifting proved for all bytes, columns and blocks; the rounds up to 3 blocks over those contracts; sizes and counter mode for any number of blocks')
