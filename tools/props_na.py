K = 'fbpcf/engine/communication/'
prop('N01', 'What a party sees beyond its outputs tells nothing about the private inputs',
     'Apart from the values opened to it and the sizes and operations that are public, everything a party receives in a run is distributed independently of the other parties\' private inputs: shares, masks, opened differences and oblivious transfers reveal nothing, under the computational assumptions of the primitives.',
     ['inputs', 'schedules'], 'every input, every operation sequence, every party\'s view', 'a test cannot sample a probability distribution over views finely enough, nor a computational assumption',
     ['fbpcf/engine/SecretShareEngine.cpp', 'fbpcf/engine/tuple_generator/'], [('fresh randomness of every mask', 'fbpcf/engine/SecretShareEngine.cpp')],
     'not decided', na='a relational statement about probability distributions under computational assumptions; the contracts here are over single runs with deterministic semantics, and no deductive verifier installed has a probabilistic relational logic. Functional parts (masks consumed once and in lockstep, the right values opened to the right party only) are claimed under E04, T01 and M01')
prop('N02', 'A run of honest parties ends: no party waits for ever',
     'When all parties run the same program, no party waits for a message, a tuple or a lock for ever, whatever the thread schedule: the agents, the background buffers and the tuple generators never deadlock, and every operation ends.',
     ['schedules'], 'every interleaving of the parties and of their background threads', 'a test sees a few schedules only',
     [K, 'fbpcf/engine/util/AsyncBuffer.h'], [('hosts and condition variables', K + 'InMemoryPartyCommunicationAgentHost.cpp')],
     'not decided', na='the contracts are sequential: background work is run in some sequential order and waiting on a condition is a precondition. Liveness under all schedules of C++ threads has no deductive back end here (cbmc and the VC generator have none for C++ threads). Loops under contract carry decreasing measures, so sequential termination is part of the proofs')
prop('N03', 'Files in cloud storage are read and written as one byte sequence',
     'The clients of S3 and Google Cloud Storage ask for the right ranges of the right object, upload the parts in order, complete an upload exactly when every part arrived and abort it otherwise; the file managers and range streams over them give the same bytes as the buffered readers.',
     ['inputs', 'faults'], 'every object, every range, every error of the service', 'the code needs a service; tests use mocks',
     ['fbpcf/io/cloud_util/', 'fbpcf/io/FileManagerUtil.cpp', 'fbpcf/aws/', 'fbpcf/gcp/'], [('clients of the services', 'fbpcf/io/cloud_util/')],
     'not decided', na='these sources are calls into the AWS and Google SDKs, which are not installed here, so they do not even parse; their contracts would be assumed in full. The repository\'s own part, the readers and writers above those clients, is claimed under I01')
