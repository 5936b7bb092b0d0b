U = 'fbpcf/engine/util/'
K = 'fbpcf/engine/communication/'
prop('C01', 'The symmetric primitives compute the standard functions, block by block',
     'AES-128 with a 128-bit key encrypts any number of blocks exactly as the standard does, in place, each block on its own; decryption inverts it. The correlation-robust hash of a block x is AES_k(x) xor x for the fixed key; the tree expander gives the two hashes of a block. A generator with a given key and offset always gives the same stream: the AES encryptions of offset, offset+1, ...; two generators with the same key and offset agree however the requests for bits, bytes and 64-bit words are cut, and every request gets exactly as many bits or bytes as asked for. AES-CMAC equals RFC 4493 for any message; the synthetic IV is built from CMACs of the whole message. A chunk buffer hands out the generated items once and in order.',
     ['inputs', 'histories'], 'every key, block, message length and sequence of requests',
     'tests use one key and one message; other lengths, block counts or request cuts reach other code (batches of blocks, last partial block, buffer ends)',
     [U + x for x in ('aes.cpp', 'aes.h', 'AesPrg.cpp', 'AesPrg.h', 'Expander.h', 'util.cpp', 'util.h', 'AsyncBuffer.h')] + ['fbpcf/primitive/mac/AesCmac.cpp', 'fbpcf/primitive/mac/S2v.cpp'],
     [('key schedule and rounds', U + 'aes.cpp'), ('counter-mode stream', U + 'AesPrg.cpp: generateRandomData'), ('message authentication code', 'fbpcf/primitive/mac/AesCmac.cpp')],
     'key schedule, rounds, hash, expander, generator requests and blocks and synthetic IV under contract for all keys and any number of blocks, AES round instructions uninterpreted with their inverse law; the replay battery compares the compiled code with OpenSSL')
prop('M01', 'Every message arrives unchanged, in order and only at the party it was sent to',
     'For any sequence of messages between two parties, of any of the types offered (bytes, bits, 64-bit integers, vectors and single values of plain types) and any lengths, the receiver that asks for the same types and lengths gets exactly the values sent, in order; bits are packed eight to a byte, first bit highest, padded with 0. The channel is a byte stream: how the sender cuts the bytes into messages does not matter to what the receiver reads. Channels of different pairs of parties, and different channels of the same pair, are independent. Opening to all gives every party the xor (sum modulo 2^64) of all shares, opening to one party gives that party the result and the others 0s, and key exchange gives each party the key each other party chose for it. The traffic reported is the number of bytes sent and received. A receive never returns anything but bytes that were sent: when the connection ends early it throws.',
     ['inputs', 'histories', 'schedules'], 'every value, length, sequence of messages and cut into pieces; in-memory, plain socket and TLS agents; any number of parties',
     'tests send a few fixed messages of matching sizes; partial reads, lengths that are not multiples of eight and early ends are not exercised',
     [K + x for x in ('IPartyCommunicationAgent.h', 'InMemoryPartyCommunicationAgentHost.cpp', 'InMemoryPartyCommunicationAgentFactory.h', 'SocketPartyCommunicationAgent.cpp', 'SocketPartyCommunicationAgentFactory.cpp', 'SecretShareEngineCommunicationAgent.cpp', 'AgentMapHelper.h')],
     [('packing of bits', K + 'IPartyCommunicationAgent.h: compressToBytes, decompressToBits'), ('byte stream', K + 'InMemoryPartyCommunicationAgentHost.cpp: receive'), ('blocking reads', K + 'SocketPartyCommunicationAgent.cpp: recvImpl'), ('opening', K + 'SecretShareEngineCommunicationAgent.cpp')],
     'packing and unpacking by inductive loop contracts for any number of bits; typed messages against a ghost byte channel; the host and the openings under contract; sockets (plain and TLS over loopback) by the replay battery')
