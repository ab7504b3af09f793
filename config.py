"""What each check runs."""

NONTRIVIAL = 'at least one fault fired, a caller was preempted by another, or the database was opened again after its first opening'

# C library functions without side effects outside memory: not simulated.
PURE = {'_GLOBAL_OFFSET_TABLE_', '__errno_location', 'memcmp', 'memcpy', 'memmove', 'memset', 'memchr', 'qsort', 'bsearch', 'stderr', 'stdout', 'strcmp', 'strncmp',
        'strlen', 'strcpy', 'strncpy', 'strchr', 'strrchr', 'strcat', 'strtol', 'strtoul', 'snprintf', 'sprintf', 'atoi', '__ctype_b_loc', 'isdigit',
        'urkel_sim_max_file_size', 'urkel_sim_max_open_files', 'urkel_sim_read_buffer', 'urkel_sim_write_buffer'}

REAL = ['src/tree.c', 'src/store.c', 'src/nodes.c', 'src/proof.c', 'src/io.c with src/io_posix.c', 'src/util.c', 'src/internal.c', 'src/bits.c', 'src/blake2b.c',
        'src/urkel.c (command line, C21)']
STUB = ['kernel and file system (in memory, byte-exact, with page cache and power-loss journal)', 'file locks', 'mmap (copies kept coherent with the file, unmapped pages poisoned)',
        'malloc family (tracked, failing on demand)', 'pthread mutex and rwlock (scheduling points; reader-preferring)', 'thread scheduler', 'processes (a set of descriptors, maps, heap and threads that dies at once)',
        'clock, /dev/urandom, getrandom', 'stdout, environment and exit of the command-line tool']
ASSUME = ['sequentially consistent memory; interleavings are explored at system calls, lock operations and (race build) memory accesses',
          'the file system applies completed writes of one process in order and keeps them when the process dies',
          'the simulator limits (data-file size, open files, buffers) are lowered through the URKEL_SIM hook so that their edges are reached']
POWER = ['after power loss each file keeps its durable bytes plus a prefix of the later writes, the next write torn or zero-filled; directory changes survive in order, and fsync of a file makes earlier directory changes durable']


def c(builds, rule, thorough_s=600, probes=(), assume=()):
    return dict(builds=builds, rule=rule, thorough_s=thorough_s, probes=list(probes), assume=list(assume))


CHECKS = {
    'C01': c([('asan', 33000), ('fsync', 9000)], 'A seeded history of commits, removals, rollovers and reopens; a dry run counts the system calls of every operation, then kills are placed before, after or part-way through chosen calls (also inside recovery and among concurrent callers).', probes=['recovered_unacked']),
    'C02': c([('asan', 27000), ('fsync', 18000)], 'A seeded history with power losses between operations and after kills inside them, in the plain and the syncing build.', probes=['rolled_back_unsynced', 'recovered_unacked'], assume=POWER),
    'C03': c([('asan', 60000)], 'A seeded history after which the tail of the files is cut, flipped, zeroed, extended with garbage or with imitated commit records; values imitate commit records too.'),
    'C04': c([('asan', 39000), ('fsync', 15000)], 'A seeded history in which chosen system calls of commits fail or transfer short, once or repeatedly, or the disk fills up; transactions are then retried, abandoned, or the process killed.', probes=['commit_failed']),
    'C05': c([('asan', 30000)], 'Databases in seeded states are opened while chosen system calls fail, descriptors run out, entropy or permission is missing, opens race or are killed; then opened again without faults.', probes=['open_failed_fault']),
    'C06': c([('asan', 36000)], 'A seeded history in which chosen open, stat, map and read calls of lookups, proofs, iterations and transaction creation fail; the same calls are repeated without faults.'),
    'C07': c([('asan', 42000)], 'Seeded histories of commits, reverts and reopens with lookups at old, pending and never committed roots.'),
    'C08': c([('asan', 60000)], 'Seeded operation sequences over several transactions and the database against a map model, over key sets with shared prefixes up to 255 bits and value sizes 0 to 1023.'),
    'C09': c([('asan', 27000)], 'Seeded histories reaching the same contents in different orders, commit splits, crashes and reverts; every root is compared with an independent implementation of the hashing.'),
    'C10': c([('asan', 27000)], 'Proofs of seeded databases, verified as produced, after seeded alterations in transit, and assembled by a dishonest prover; an independent verifier is the oracle.'),
    'C11': c([('asan', 36000)], 'Seeded snapshots iterated fully or partly while other handles commit, revert and reopen, with and without read errors.'),
    'C12': c([('asan', 42000), ('race', 18000)], 'Two to five callers issue seeded operations on one handle under a seeded scheduler; the history is checked for linearizability against the map model.', probes=['lin_histories']),
    'C13': c([('asan', 42000), ('race', 18000)], 'Two to five callers issue seeded operations under a seeded scheduler with injected errors; a state in which nobody can run, or a step budget exceeded, is a violation, as is a lock still held afterwards.'),
    'C14': c([('race', 42000), ('asan', 24000)], 'Two to five callers issue seeded operations; every memory access of the library is a scheduling point and is checked by a happens-before race detector and for validity of the memory.'),
    'C15': c([('asan', 60000)], 'Up to four simulated processes open, close, destroy and die on one directory, interleaved at every system call.', probes=['open_refused', 'destroy_refused']),
    'C16': c([('asan', 48000)], 'Databases in seeded states with foreign files are destroyed with failing calls, kills and racing openers; then destroyed again or opened.', probes=['destroy_partial', 'destroy_refused', 'destroyed']),
    'C17': c([('asan', 48000)], 'Seeded histories with injected errors; after every close the simulator lists descriptors, maps, heap blocks and locks of the process.', probes=['leak_checks']),
    'C18': c([('asan', 66000)], 'The same seeded operations under seeded settings of the four limits against the model, with reopens, records landing on limits, and size checks of every file.'),
    'C19': c([('asan', 45000)], 'Seeded histories in which read, write, open, mmap-less reads and sync calls are interrupted, told to try again, or transfer short, any number of times; results must be exactly those of the model.'),
    'C20': c([('asan', 33000)], 'Seeded histories in which chosen allocations and mappings fail, once or persistently; an abort counts as a crash, after which the database is reopened.'),
    'C21': c([('asan', 33000)], 'Sequences of command-line invocations by simulated processes, with kills, errors and a foreign owner; exit status and output are compared with the model.'),
    'C24': c([('asan', 24000), ('fsync', 9000)], 'Seeded histories whose files are read by an independent reader of the format, copied (open or closed) and opened beside the original or under other limits; and databases written by an independent writer of the format, read, extended and reopened.', probes=['imported', 'stored_read', 'copied_open', 'limits_changed']),
    'C25': c([('asan', 15000), ('fsync', 3000)], 'Seeded histories in which the bytes appended, the reads, the opens and the heap of every call are compared with what the model says the call touches.', probes=['cost_commit', 'cost_lookup', 'cost_open', 'cost_memory']),
    'C26': c([('asan', 20000), ('race', 5000)], 'Seeded histories in which databases are opened and destroyed by every spelling of their path while processes (and threads, during calls) change their working directory; contents, ownership and the whole file tree are compared with the model.', probes=['chdir', 'path_relative', 'path_spelled']),
    'C27': c([('asan', 30000), ('race', 5000)], 'Two callers of one process, each with a database of its own, run seeded sequences of every operation (open, commit, read, prove, verify, iterate, inject, close, destroy) under a seeded scheduler, with failing calls and kills; every result is compared with the model as if the caller were alone, and in the race build every memory access is checked.', probes=['concurrent_phases']),
}
