SCH = 'fbpcf/scheduler/'
SF = [SCH + x for x in ('PlaintextScheduler.cpp', 'NetworkPlaintextScheduler.cpp', 'EagerScheduler.cpp', 'LazyScheduler.cpp')]
prop('S01', 'Every scheduler delivers the plaintext result of each operation on wires',
     'On the plaintext, network plaintext, eager and lazy scheduler, every operation (inputs, AND, XOR, NOT, composites, +, -, *, negation, share extraction and recovery, batching, unbatching, opening), scalar or batched, gives a wire whose value reconstructs to the plaintext result on its operands. The lazy scheduler may defer gates but runs each once, after those it depends on; reading forces what is needed; an opening reaches the named party only.',
     ['inputs', 'histories', 'configurations'], 'every value, batch size and party id; any program of operations: each is proved against an arbitrary state of pending levels and wires',
     'tests run fixed small programs; deferred execution order and batch boundaries show only for particular programs',
     SF + [SCH + 'gate_keeper/GateKeeper.cpp', SCH + 'gate_keeper/NormalGate.h', SCH + 'gate_keeper/CompositeGate.h', SCH + 'gate_keeper/RebatchingGate.h'],
     [('level of a gate is after the levels of its operands; free and non-free gates alternate', SCH + 'gate_keeper/GateKeeper.cpp'),
      ('execution of all gates of a level, one engine round', SCH + 'LazyScheduler.cpp: executeOneLevel')],
     'operations proved for every value and any batch size against ghost contracts of the engine and, for the lazy scheduler, of the gate keeper; gate keeper levels and one-level execution proved for up to 3 queued gates, rebatching for up to 3 batches, composites for 1 and 3 right operands (bounded, labelled)')
prop('S02', 'A wire\'s value lives exactly as long as someone references it',
     'Allocating gives a fresh id whose slot holds the given value and touches no other wire; raising and lowering counts frees a wire exactly when its last reference goes; a gate that has not run yet holds its operands and result, so releasing them earlier is harmless, and lets them go once it has run; reading a freed id is rejected by the checked allocators. Freed slots are reused without aliasing live ones; batch and scalar, boolean and integer wires alike.',
     ['inputs', 'histories', 'configurations'], 'every history of allocations, copies and releases (inductive invariant over the free list); every wire kind and scheduler',
     'tests allocate and free a handful of wires; leaks, early frees and aliasing need longer histories of holds and releases',
     [SCH + 'WireKeeper.cpp', SCH + 'VectorArenaAllocator.h', SCH + 'UnorderedMapAllocator.h', SCH + 'IAllocator.h'] + SF + [SCH + 'gate_keeper/IGate.h'],
     [('free list of the arena allocator', SCH + 'VectorArenaAllocator.h'), ('reference counts beside each value', SCH + 'WireKeeper.cpp'),
      ('gates take references on construction and drop them on destruction', SCH + 'gate_keeper/IGate.h')],
     'allocators proved by an inductive invariant for any history; wire keeper over a ghost allocator; gate and scheduler reference effects over a ghost wire keeper; destructors are invoked explicitly by the tasks')
