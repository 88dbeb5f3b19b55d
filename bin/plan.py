# property id -> harness source, build flavour, technique, note
PLAN = {
    "C01": dict(src="store.cpp", flavor="asan", technique="stateful model-based testing (random histories against a map), AddressSanitizer",
        note="Random search over histories; assumes the LevelDB and RocksDB libraries are correct."),
    "C02": dict(src="store.cpp", flavor="asan", technique="stateful model-based testing (random histories against queues of expected results), AddressSanitizer",
        note="Random search over histories with the harness's own hash function, so that it knows where each pair goes."),
    "C03": dict(src="store.cpp", flavor="asan", technique="property-based testing (random masks and triples, read-back of all orderings against a model)",
        note="Random search; all 64 masks are reached in every run."),
    "C07": dict(src="codec.cpp", flavor="ubsan", technique='property-based testing (pairs derived to collide; round trip and injectivity)',
        note='Random search over pairs up to some hundred bytes.'),
    "C08": dict(src="codec.cpp", flavor="ubsan", technique='property-based testing (edge-biased integers; round trip and order against the machine order; C against C++)',
        note='Random search; 8 and 16-bit types are nearly enumerated.'),
    "C09": dict(src="codec.cpp", flavor="ubsan", technique='property-based testing (edge-biased floats; round trip and order against the machine order)',
        note='Random search up to 99% of the largest value; infinities and NaN are outside the property.'),
    "C10": dict(src="codec.cpp", flavor="ubsan", technique='property-based testing (random messages; round trip through an exactly sized buffer under AddressSanitizer)',
        note='Random search; one process packs and unpacks, on separate buffers.'),
    "C11": dict(src="codec.cpp", flavor="ubsan", technique='model-based testing (every count recomputed from the series after every value)',
        note='Random search; the number of buckets each rule picks is taken as given except for histogram_n_buckets.'),
    "C12": dict(src="codec.cpp", flavor="ubsan", technique='property-based testing (round trip in any state, then lock-step continuation of copy and original)',
        note='Random search.'),
    "C04": dict(src="scan.cpp", flavor="asan", technique='stateful model-based testing (random contents and scans against a sorted map), AddressSanitizer',
        note='Random search; scans with a NULL numeric predicate over mixed predicate types are only checked for memory safety.'),
    "C13": dict(src="histo.cpp", flavor="asan", technique='stateful model-based testing (random PUTs and HISTOGRAM requests against a model that recounts every value)',
        note='Random search; bucket ends are those the configured rule gives for the first values.'),
    "C14": dict(src="histo.cpp", flavor="asan", technique='stateful model-based testing (random sessions, Syncs and datastore changes against a model of the stored histograms)',
        note='Random search; each case runs in one process.'),
    "C06": dict(src="disk.cpp", flavor="asan", technique='differential testing (one random history on three backends side by side)',
        note='Random search; DELETE of a missing pair may succeed on one backend and fail on another.'),
    "C15": dict(src="disk.cpp", flavor="asan", technique='stateful model-based testing (random sessions over the same files against a model of their contents)',
        note='Random search; sessions of one case run in one process.'),
    "C16": dict(src="disk.cpp", flavor="asan", technique='fault injection at generated file operations (process killed, power lost) with a prefix-consistency oracle',
        note='Random search; a power failure is simulated by cutting files back to their last synced size, directory operations are taken as durable.'),
    "C17": dict(src="disk.cpp", flavor="asan", technique='stateful model-based testing (random changes of datastore and hash against a model of every location)',
        note='Random search; one rank.'),
    "C18": dict(src="conf.cpp", flavor="asan", technique='property-based testing (maps and accessors of a simulated world against a rank-by-rank table)',
        note='Random search over worlds up to 300 ranks; the rank and size are simulated, one process each.'),
    "C19": dict(src="conf.cpp", flavor="asan", technique='differential testing against independent hash implementations (exactly sized unaligned buffers, AddressSanitizer)',
        note='Random search.'),
    "C20": dict(src="conf.cpp", flavor="asan", technique='model-based testing (random configuration sources against the documented precedence)',
        note='Random search; the format of the files is that of the documentation, white space noise included.'),
    "C21": dict(src="conf.cpp", flavor="asan", technique='stateful model-based testing (random option calls against a model of all options)',
        note='Random search.'),
    "C23": dict(src="async.cpp", flavor="tsan", technique='randomised concurrent histories under ThreadSanitizer, with the C22 oracle',
        note='Random search; a race is reported when both accesses are executed in one history, whatever their order.'),
    "C22": dict(src="async.cpp", flavor="asan", technique='stateful model-based testing (random histories racing with the background thread, every read checked against the orders the queues allow)',
        note='Random search over histories and delays; schedules are those the machine and the injected delays produce.'),
    "C05": dict(src="remote.cpp", flavor="asan", technique='property-based testing (random operations and limits; every packet on a simulated network compared with the queue it came from)',
        note='Random search; packets for local datastores come from the same queues but are not observed.'),
    "C24": dict(src="remote.cpp", flavor="asan", technique='stateful model-based testing (random multi-rank histories over a simulated network against one shared model)',
        note='Random search; the ranks of a world take turns in one thread, concurrent ranks are the matter of C25.'),
    "C25": dict(src="mpi.cpp", flavor="asan", technique='stateful model-based testing (random scripts of concurrent ranks over a simulated MPI network, every result checked against the states the phase allows), AddressSanitizer',
        note='Random search; the MPI library is replaced by a model that promises what the MPI standard promises, schedules are those the machine and the injected delays produce.'),
    "C29": dict(src="mpi.cpp", flavor="tsan", technique='randomised multi-rank histories under ThreadSanitizer, with the C25 oracle',
        note='Random search; a race is reported when both accesses are executed in one history without being ordered by messages or locks.'),
    "C26": dict(src="api.cpp", flavor="asan", technique='differential testing (one random history through different forms of the same calls), AddressSanitizer',
        note='Random search; entries of a list are well formed, the lists themselves may be missing.'),
    "C30": dict(src="api.cpp", flavor="asan", technique='stateful model-based testing (random result lists against the entries they had when returned), AddressSanitizer',
        note="Random search; the subject and predicate of a result are the caller's buffers, which the harness keeps."),
    "C31": dict(src="api.cpp", flavor="asan", technique='property-based testing (random operations; order of all timestamps against clock readings around each call)',
        note='Random search; operations on datastores of the same rank.'),
    "C28": dict(src="trans.cpp", flavor="asan", technique='stateful model-based testing (random user transform functions and histories against a model sorted by encoded bytes)',
        note='Random search; the user functions are drawn from a family of injective and refusing ones.'),
    "C27": dict(src="life.cpp", flavor="asan", technique='stateful property-based testing (random lifecycles of two instances, each history repeated with resource accounting), AddressSanitizer',
        note='Random search; one rank, whose failed opens are those of datastores that cannot be opened.'),
    "C32": dict(src="foreign.cpp", flavor="asan", technique='fault injection into stored records with generated mutations, stateful model-based testing, AddressSanitizer',
        note='Random search; records are changed through the LevelDB and RocksDB interfaces, damage to the files themselves is theirs to detect.'),
    "C33": dict(src="stats.cpp", flavor="asan", technique='stateful model-based testing (random histories; the reported statistics against the calls and operations counted by a model)',
        note='Random search; one rank, statistics of packets between ranks follow the same path.'),
}
NOT_APPLICABLE = {}
