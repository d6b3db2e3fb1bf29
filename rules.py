# Text of the evidence files: how cases are made, what was real, what was assumed.
REAL = ['all of include/nudb: basic_store, context, gentex, cache, bucket, pool, arena, bulk_io, posix_file, create, recover, rekey, verify, visit, xxhasher',
        'tools/nudb.cpp with its clock thread and formatting helpers (in the runs of C24 and some of C11)',
        'std::mutex/condition_variable/thread, boost::shared_mutex, boost::atomic and std::chrono as compiled into the library under test (their pthread, futex and clock calls are simulated)',
        'libstdc++ containers and exceptions']
STUB = ['POSIX file calls: in-memory file system with separate volatile and durable state, faults and crash semantics',
        'pthread mutexes, condition variables, threads, TLS: fibers under the seeded scheduler', 'clocks and sleeping: simulated time',
        'malloc/new of the library: simulated heap (quarantine, red zones, injected failures)', 'random device behind make_salt/make_uid: seeded',
        'command line tool: one call of its main is one process; standard streams are captured, static objects restored and exit handlers run afterwards; boost::program_options and iostreams are real but not instrumented', 'atomics and plain memory accesses: real, but instrumented as scheduling points and race-checked']
_NT = {
 'C01': 'in which a key was inserted again or a stored key fetched', 'C02': 'with a crash or a recovered store to compare', 'C03': 'with a recovered store compared with the possible prefixes',
 'C04': 'with a recovered store compared with an uninterrupted recovery', 'C05': 'in which a disk error fired', 'C06': 'with at least one EINTR or short transfer', 'C07': 'with at least one failed read',
 'C08': 'with a store recovered after the timed power loss', 'C09': 'with client operations during a stalled write', 'C10': 'with a context stopped or a store closed', 'C11': 'with library operations executed',
 'C12': 'with a rekey that ended or was interrupted', 'C13': 'with a visit', 'C14': 'with a verify', 'C15': 'with inserts or a rekey', 'C16': 'with a create that succeeded, failed or was refused', 'C17': 'with a refusal decided',
 'C18': 'with files decoded by the independent decoder', 'C19': 'with a leak check decided', 'C20': 'with an injected allocation failure', 'C21': 'with several stores and a fault, crash or close', 'C22': 'with throttled inserts or a throttling decision that was due',
 'C23': 'with progress reports received', 'C24': 'with a command of the tool executed'}
def rule(p):
    return ('one case = one seed: gen.cpp derives from it configuration (key size, block size, load factor, hasher, value sizes), operation sequences per client thread, I/O latencies, faults, crash points and the scheduler; '
            'the run is executed by the real library under the simulator and every oracle of the property is evaluated during and after it. Non-trivial: a run that reached a verdict %s; distinct by the pair (interleaving hash, hash of the disk after every era).' % _NT[p])
_BASE = ['sequentially consistent memory: the scheduler interleaves at instrumented accesses, weak memory reorderings are only covered by the happens-before race detector',
         'seeded search is not exhaustive: a violation that needs a schedule or fault sequence no seed reached is not excluded']
_CRASH = ['crash model: what was fsynced survives; of later writes any subset of 512-byte sectors inside the old file size may survive, an extension survives as a prefix; directory operations survive as a prefix in order and an fsync makes earlier ones durable']
def assumptions(p):
    a = list(_BASE)
    if p in ('C02', 'C03', 'C04', 'C05', 'C08', 'C12', 'C15', 'C18', 'C20', 'C21', 'C06', 'C14', 'C16', 'C24'): a += _CRASH
    if p in ('C08', 'C21'): a.append('the background bound is stated as 2 s plus the simulated I/O time of the commits involved')
    if p == 'C09': a.append('a stall holds up the writing call only; reads of the same file are served by the simulated disk meanwhile')
    if p in ('C05', 'C07'): a.append('after a failed fsync a random half of the unsynced writes is lost although later fsyncs succeed')
    return a
