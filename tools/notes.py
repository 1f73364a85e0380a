NOTE['C01'] = ('byte-accurate HighwayHash.tla; results and checkpoints of the real code validated by TLC (TraceHash); arithmetic generated from the specification as a native oracle', 'The specification itself is checked against the published vectors; the code against it on generated, crafted and random inputs, not proved for all.')
B = 'generated and random behaviours, bounded by the lengths and counts in DESIGN.md; the compression function is compared, not proved'
NOTE['C02'] = ('Simd.tla (the vector code, instruction by instruction, equals HighwayHash.tla); merged traces of all types, build configurations and CPU models validated against TraceHasher', 'Every SIMD result equals the portable one on all behaviours generated; %s.' % B)
NOTE['C03'] = ('Simd.tla (the vector code, instruction by instruction, equals HighwayHash.tla); merged traces of NEON (qemu) and x86 validated against TraceHasher, checkpoints carried across', 'NEON runs under qemu-aarch64; %s.' % B)
NOTE['C04'] = ('Simd.tla (the vector code, instruction by instruction, equals HighwayHash.tla); merged traces of wasm simd128 (node) and x86 validated against TraceHasher, checkpoints carried across', 'wasm runs in node; %s.' % B)
NOTE['C05'] = ('PacketImpl refines Hasher; transition cover replayed and traces validated', 'Exhaustive over chunkings on the design (PACKET=32, 70 bytes), cover and search on the code; %s.' % B)
NOTE['C06'] = ('PacketImpl checkpoints; hop chains within and across architectures validated', B)
NOTE['C07'] = ('PacketImpl roots; traces from Default validated against traces from the zero key', B)
NOTE['C11'] = ('PacketImpl raw restores; raw-rooted traces on all backends validated', B)
NOTE['C12'] = ('values of 26 kinds of types, all append styles and builders: traces through the std adapters and builders validated against TraceHasher', B)
NOTE['C13'] = ('PacketImpl ObserversPure; traces with observers validated against the same history without', B)
NOTE['C14'] = ('PacketImpl CkptCanonical/NoStale/Idempotent; checkpoint bytes as trace observations', B)
NOTE['C15'] = ('PacketImpl Isolation and Threads; interleaved and concurrent traces validated against solitary ones; writable globals by call graph (Reach), and if there are any, the thread sanitizer', B + '; concurrent interleavings are sampled')
NOTE['C18'] = ('call graphs of the optimised operations explored by TLC (Reach: no allocation function); traces with allocation counts validated against TraceHasher', B)
NOTE['C08'] = ('call graphs of the optimised operations in 13 configurations explored by TLC (Reach: no panic entry point); generated and random behaviours in checked builds, panics judged on TraceHasher', 'The static part is complete for the compiled operations of each configuration; builds with run-time checks are explored, not proved.')
NOTE['C09'] = ('Memory.tla (accesses of appends and remainders); behaviours replayed with data and objects at page edges and all offsets, traces judged by TraceHasher; every recorded memory access judged by TraceMemory', 'Accesses are those of the recorded runs (valgrind, guard pages, address sanitizer), over the generated chunkings; NEON and wasm by guard pages only.')
NOTE['C17'] = ('Neutral.tla (four targets in lockstep); merged traces of the portable hasher on big- and little-endian, 32- and 64-bit targets validated against TraceHasher, checkpoints carried between them', 'Byte order and word size are decided by what the code does on emulated targets of all four kinds over generated behaviours, not by its text.')
NOTE['C16'] = ('graphs of all source items (every cfg variant) and of the compiled functions in 13 configurations explored by TLC (Reach: no unsafe code reachable from the portable path)', 'Complete for the source graph (syntactic name resolution) and for the 13 compiled configurations; unsafe code inside core and std does not count.')
NOTE['C10'] = ('Dispatch.tla (all configurations x CPUs); selections observed in 34 builds on up to 9 emulated CPUs each judged by TraceDispatch; results merged and validated against TraceHasher; constructors without std also by call graph (Reach)', 'Configurations are enumerated completely over the listed axes; within one, hashers are obtained and used in generated sequences. Selecting the portable hasher where SIMD would be allowed is not counted as a violation.')
