import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe or [], "hook_needed":None}})
prop("C01","A GET returns the value most recently PUT for its subject-predicate pair",
 "After any history of PUT, GET and DELETE, in single or bulk form, flushed in any way, a GET of a subject-predicate pair succeeds if and only if the pair was PUT and not DELETEd since, and then returns the type and value of the last flushed PUT of exactly that pair, for every data type (floating point values to their stored precision). "
 "Pairs that differ in any byte, in the split between subject and predicate, or in a type are distinct, and no operation on one pair affects another. A flush executes its queued PUTs before its GETs and its GETs before its DELETEs; operations of one kind on one pair take effect in the order they were queued.",
 ["inputs","histories","configurations"],"all histories over all data types, backends, datastore counts, hash functions and request limits",
 "The tests put and get one or ten fixed triples once, on one datastore; overwriting, colliding prefixes, deletes, several datastores and request splitting are not combined.",
 ["src/hxhim/ops/single_type.cpp","src/hxhim/hxhim.cpp","src/datastore/InMemory.cpp","src/datastore/LevelDB.cpp","src/datastore/RocksDB.cpp","src/datastore/datastore.cpp","include/hxhim/private/process.hpp"],
 [("key encoding","src/datastore/datastore.cpp key_from_triple"),("queueing by datastore","include/hxhim/private"),("batch execution","src/datastore/*.cpp")],["hxhim::Get results"])
prop("C02","Every queued operation yields exactly one result, in order",
 "A flush returns exactly one result for every operation queued since the last flush of its kind (at least one for a GETOP), none for anything else, and leaves nothing queued. Results come grouped PUT, GET, GETOP, DELETE, HISTOGRAM (then one SYNC per local datastore for Sync), each carrying the operation, a SUCCESS or ERROR status and the caller's own subject and predicate buffers; per datastore, results of a kind follow the order in which the operations were queued. A call with a missing argument is refused with an error and queues nothing.",
 ["inputs","histories","configurations"],"all histories of calls and flushes, all packet limits and datastore counts",
 "The tests count results of one fixed flush; they never mix kinds, split packets, refuse calls or check order.",
 ["src/hxhim/hxhim.cpp","src/hxhim/ops","src/hxhim/Results.cpp","include/hxhim/private/process.hpp","src/message"],
 [("queues per datastore","include/hxhim/private/hxhim.hpp"),("packet splitting","src/hxhim/private")],["hxhim::Results"])
prop("C03","A PUT stores exactly the orderings its permutation mask asks for",
 "A PUT of (S, P, O) with a permutation mask stores, for each of the six orderings in the mask, that ordering of the triple: its first two elements become the pair and the third the value, with the types following the values. It stores nothing for orderings outside the mask, and returns one result per requested ordering naming the stored pair.",
 ["inputs","histories"],"all masks, types and coinciding values",
 "The tests use a handful of masks with distinct fixed values.",
 ["src/hxhim/ops/single_type.cpp","src/hxhim/hxhim.cpp","include/hxhim/constants.h"],[("permutation expansion","hxhim PUT path")],["hxhim::Get"])

prop("C04","A GETOP scan returns the right records in key order",
 "Each datastore keeps its records in one total order, by encoded subject followed by encoded predicate (bytes as they are, numbers in numeric order). Of the datastore the pair hashes to, EQ returns the first record whose key starts with the given pair, NEXT and PREV walk forward or backward from the first key not below it, FIRST and LAST from either end of the datastore, LOWEST and HIGHEST over just the keys with that prefix from its low or high end; a NULL predicate means every predicate of the subject. "
 "A scan returns at most the requested number of records and fewer only at the end of the range, each record with the stored subject, predicate and value; a scan that finds nothing returns a single ERROR result. A scan flushed together with PUTs and DELETEs sees all of those PUTs and none of those DELETEs.",
 ["inputs","histories","configurations"],"all contents, prefixes, scan kinds, record counts and backends",
 "The tests scan ten fixed rows with prefixes that exist; absent prefixes, ends of the datastore, shared prefixes and deletes are not reached.",
 ["src/datastore/InMemory.cpp","src/datastore/LevelDB.cpp","src/datastore/RocksDB.cpp","src/datastore/datastore.cpp","include/datastore"],
 [("scan execution","BGetOpImpl of each backend"),("prefix","BGetOp_get_seek")],["hxhim::GetOp results"])
prop("C07","The key of a subject-predicate pair is reversible and unambiguous",
 "Encoding a subject-predicate pair as a datastore key and decoding it returns the same bytes and types for every pair of byte strings, including empty ones and ones that contain separators or look like keys. Two different pairs never have the same key, and decoding a key works from the key alone, whether it copies or refers to it.",
 ["inputs"],"all pairs of byte strings and types","The tests encode one pair.",
 ["src/datastore/triplestore.cpp","include/datastore/triplestore.hpp"],[("key layout","sp_to_key, key_to_sp")],["sp_to_key/key_to_sp"])
prop("C08","Encoded integers sort as the integers do, and decode to the same integer",
 "For every integer of every width and signedness, encoding and decoding returns the same integer, and the byte order of two encodings is the numeric order of the integers. This holds for every pair of sign symbols where the negative one sorts (as an unsigned byte) below the digits and the positive one above them, and decoding a nonzero integer stops exactly at the end of its encoding when another one follows.",
 ["inputs"],"all integers of all widths, and all valid symbol pairs","The tests encode a list of examples; extreme values and neighbours are missing.",
 ["include/utils/elen.tpp","include/utils/elen.hpp","src/utils/elen.cpp"],[("integer encoding","elen::encode::integers")],["elen::encode/decode"])
prop("C09","Encoded floating point numbers sort in order and decode to their precision",
 "For every float and double up to 99% of the type's largest value, decoding its encoding returns the number to within the encoding's precision, zero and sign included. The byte order of two encodings is the numeric order whenever the numbers differ by more than that precision, and never contradicts it.",
 ["inputs"],"all finite floats and doubles","The tests encode a list of examples.",
 ["include/utils/elen.tpp","src/utils/elen.cpp"],[("floating point encoding","elen::encode::floating_point")],["elen::encode/decode"])
prop("C10","A message unpacks to exactly what was packed",
 "Every request and response (PUT, GET, GETOP, DELETE, HISTOGRAM) that is packed and unpacked in another process has the same operation, source, destination, count, and per entry the same buffers, types, statuses and original client pointers. Packing writes exactly the announced number of bytes, a receiver never reads past the end of the buffer and keeps no reference into it, and a request is never taken for a response.",
 ["inputs"],"all messages of all five kinds","The tests pack one or two fixed entries of each kind.",
 ["src/message/Packer.cpp","src/message/Unpacker.cpp","src/message","include/message"],[("packing","Message::Packer"),("unpacking","Message::Unpacker")],["Message::Packer/Unpacker"])
prop("C11","A histogram counts every value once, in its bucket",
 "A histogram has no buckets until its configured number of first values has been added; then its bucket rule fixes left ends, in order, starting at the smallest of those values, which never change afterwards. From then on the count of each bucket is the number of values added so far, first values included, that lie between its left end and the next one (the last bucket is unbounded), values below the first bucket being ignored, and the reported upper bound is the largest counted value. The built-in rules cut the range of the first values into equally wide buckets: a given number of them (their width rounded up to an integer), or as many as the square root, Sturges, Rice, Scott and uniform-log rules say, at least one.",
 ["inputs","histories"],"all rules, thresholds and data series","The tests add a handful of integers.",
 ["src/utils/Histogram.cpp","include/utils/Histogram.hpp","include/utils/Histogram.h"],[("counting","Histogram::add, insert, gen_counts"),("rules","histogram_*")],["Histogram::get"])
prop("C12","A serialised histogram continues as the original would",
 "A histogram in any state, packed and unpacked over any other histogram, has the same name, first values, buckets and counts, and after adding the same further values to both they are still the same. Packing writes exactly the announced size, refuses a smaller buffer, and unpacking reads exactly what was written.",
 ["inputs","histories"],"all histogram states and continuations","The tests pack one or two states.",
 ["src/utils/Histogram.cpp"],[("serialisation","Histogram::pack, unpack, pack_size")],["Histogram::pack/unpack"])
prop("C13","A histogram reflects exactly the successful PUTs of its predicate",
 "For every tracked predicate name each datastore keeps one histogram, which a HISTOGRAM request of that datastore and name returns: it holds the float and double values of all PUTs flushed so far that were stored successfully in that datastore under exactly that byte-string predicate, in any requested ordering, each counted once. Failed PUTs, other value types, other predicates and DELETEs do not change it; buckets appear when the configured number of values is reached, by the configured rule. "
 "A name that is not tracked gives an ERROR result, and a datastore that does not exist is refused.",
 ["inputs","histories","configurations"],"all PUT histories, names, bucket rules, thresholds and datastore counts",
 "The tests track one name on one datastore with a fixed series of PUTs.",
 ["src/datastore/datastore.cpp","src/hxhim/ops/HISTOGRAM.cpp","src/hxhim/ops/BHISTOGRAM.cpp","src/utils/Histogram.cpp"],
 [("counting on PUT","Datastore::operate(BPut)"),("request","hxhim::Histogram, BHistogram")],["hxhim::Histogram results"])
prop("C14","Histograms are saved and restored exactly as the read and write flags say",
 "With the write flag set, Sync and Close store every current histogram in its datastore, where each is an ordinary readable record; ChangeDatastoreName also stores them when asked to. A datastore opened with the read flag continues each tracked histogram that is stored there, with its first values, buckets and counts, under the new session's bucket rule; without the flag, or where none is stored, it starts an empty one (ChangeDatastoreName does so only when asked to create missing ones). "
 "Without a write flag what is stored stays as it was, histograms of one datastore never appear in another, and the user's own records are untouched.",
 ["histories","configurations"],"all sequences of sessions, flags, Syncs and datastore changes",
 "The tests write and read back a histogram once with fixed flags.",
 ["src/datastore/datastore.cpp","src/datastore/datastores.cpp","src/datastore/LevelDB.cpp","src/datastore/RocksDB.cpp","src/datastore/InMemory.cpp","src/hxhim/hxhim.cpp"],
 [("store and load","WriteHistogramsImpl, ReadHistogramsImpl"),("flags","Datastore::Init, ChangeDatastoreName")],["hxhim::Histogram results","GETOP scans"])

prop("C06","All datastore backends give the same answers",
 "The same history of PUTs, GETs, DELETEs, GETOPs of every kind and HISTOGRAM requests gives the same results, in number, order and content, whether the datastores are in-memory, LevelDB or RocksDB. Only the status of a DELETE of a pair that is not stored may differ.",
 ["inputs","histories","configurations"],"all histories on every backend",
 "The tests run each backend with a few fixed rows and never compare them.",
 ["src/datastore/InMemory.cpp","src/datastore/LevelDB.cpp","src/datastore/RocksDB.cpp"],[("backends","BPutImpl, BGetImpl, BGetOpImpl, BDeleteImpl, BHistogram")],["hxhim::Results"])
prop("C15","A reopened datastore holds exactly what was stored before",
 "A LevelDB or RocksDB datastore opened again under the same prefix, basename, id and postfix, by Open or by path with OpenOne, holds exactly the pairs that the PUTs and DELETEs of all earlier sessions, those still queued at Close included, left in it, and datastores with other names or ids are separate. Missing prefix directories are created; a missing datastore is created by Open when create_if_missing is set and otherwise, or with OpenOne, or when the datastore is in use, opening fails and leaves the files as they were.",
 ["histories","configurations"],"all sequences of sessions, names and open modes",
 "The tests open a datastore once and remove it.",
 ["src/datastore/datastores.cpp","src/datastore/LevelDB.cpp","src/datastore/RocksDB.cpp","src/hxhim/init.cpp","src/utils/mkdir_p.cpp"],
 [("open","Datastore::Init, OpenImpl"),("OpenOne","hxhim::init::one_datastore")],["hxhim::Open","hxhim::Get"])
prop("C16","After a crash each datastore is a prefix of its history",
 "When a process is killed at any point, its LevelDB and RocksDB datastores open again, each in the state after some prefix of the PUTs and DELETEs sent to it that includes every operation whose result was returned. When the power fails, so that unsynced file contents are lost, the prefix still includes every operation completed before the last successful Sync, ChangeDatastoreName or Close.",
 ["crash_points","histories"],"all crash points of all histories",
 "The tests never kill a process.",
 ["src/datastore/LevelDB.cpp","src/datastore/RocksDB.cpp","src/datastore/datastore.cpp"],[("batches and syncs","BPutImpl, BDeleteImpl, SyncImpl")],["file operations","hxhim::Get"])
prop("C17","Changing datastore or hash keeps every location's data apart",
 "ChangeDatastoreName and ChangeHash first complete the queued operations on the current datastores, force them to storage, and return their results with one SYNC result per datastore; every later operation acts on the datastores of the new name, distributed by the new hash. Going back to a name finds exactly what was left there; where a datastore cannot be opened, each operation sent to it gets an ERROR result until the next change, and no other location is affected.",
 ["histories","configurations"],"all interleavings of operations and changes",
 "The tests change the name or hash once and write one record.",
 ["src/hxhim/hxhim.cpp","src/datastore/datastore.cpp","src/hxhim/RangeServer.cpp"],[("change","hxhim::ChangeDatastoreName, ChangeHash, Datastore::Change")],["hxhim::Results"])
prop("C18","Ranks, range servers and datastores map to each other consistently",
 "For every number of ranks, client to server ratio and datastores per server, the range servers are the first ranks of each block of client-ratio ranks, numbered in rank order, and datastore i is datastore i mod per_server of range server i div per_server; every map between ids and ranks agrees with that and rejects arguments outside it with -1. "
 "An open instance reports that layout through all its accessors, in C and C++, and exactly the datastores of its rank are local, with their ids in their file names.",
 ["inputs","configurations"],"all world sizes, ratios and counts",
 "The tests check a few ratios by example.",
 ["src/hxhim/RangeServer.cpp","src/hxhim/Datastore.cpp","src/hxhim/accessors.cpp","src/hxhim/init.cpp"],[("maps","RangeServer::get_id, get_rank, is_range_server; Datastore::get_id, get_rank"),("accessors","GetDatastoreLocation, GetDatastoreCount, GetRangeServerCount")],["RangeServer::*","Datastore::*","hxhim::Get*"])
prop("C19","A hash sends each subject and predicate to one existing datastore",
 "Each built-in hash is a fixed function of the bytes of subject and predicate (RANK and RANK_MOD_DATASTORES of the rank) that lies in the range of existing datastores and reads nothing but those bytes; every operation is served by the datastore the configured hash names, on every call the same. "
 "A user hash gets exactly the given bytes, lengths and argument, and an id that names no datastore makes the call, single or bulk, return HXHIM_ERROR and is never used.",
 ["inputs","configurations"],"all byte strings, hashes and datastore counts",
 "The tests hash a few strings.",
 ["src/hxhim/hash.cpp","include/hxhim/hash.h","src/hxhim/ops"],[("hashes","hxhim_hash_*"),("use","hxhim_hash, PutImpl, GetImpl, DeleteImpl")],["result range server ids"])
prop("C20","Each setting comes from the last configuration source that has it",
 "After Init every setting has, independently of all others, the value of the last source that names it in the order defaults, hxhim.conf, file named by HXHIM_CONFIG, environment variables, and an instance opened with them works with exactly those values. Comments, blank lines, surrounding white space and unknown keys have no effect, later lines of a file override earlier ones, and a value that is not valid for its setting is not applied.",
 ["inputs","configurations"],"all combinations of settings, values and sources",
 "The tests read one fixed configuration.",
 ["src/hxhim/config.cpp","src/utils/Configuration.cpp","include/utils/Configuration.hpp","src/hxhim/init.cpp"],[("sources","default_reader, Config::Reader"),("settings","process_config_and_fill_options, parse_*")],["hxhim_t after Init","hxhim accessors"])
prop("C21","Options take effect exactly when accepted, and never on an open instance",
 "A set option call that returns HXHIM_SUCCESS sets exactly that option to exactly that value; one that returns HXHIM_ERROR, which every unusable value, missing instance, and open or closed instance gets, changes nothing. Options and names passed in are copied, so the instance does not depend on the caller's buffers.",
 ["inputs","histories"],"all sequences of option calls and instance states",
 "The tests call each setter once or twice.",
 ["src/hxhim/options.cpp"],[("setters","hxhim_set_*, hxhim_add_histogram_track_predicate")],["hxhim_set_* results","hxhim accessors"])
prop("C22","Asynchronous PUTs do what synchronous ones do, only earlier",
 "With asynchronous PUTs enabled, at any threshold and under any schedule, every PUT is applied exactly once and in queue order per datastore, never later than the flush, Sync or Close that covers it; a read sees the pair as some prefix of the PUTs queued so far leaves it and later reads never go back. FlushPuts and Flush return one result for each PUT queued since the last, in queue order per datastore, and once the threshold is reached, PUTs are stored without any flush until fewer than that many are queued.",
 ["schedules","histories"],"all schedules of the background thread and all histories",
 "The tests wait for one PUT; they never race.",
 ["src/hxhim/init.cpp","src/hxhim/ops/FLUSH.cpp","include/hxhim/private/hxhim.hpp"],[("thread","backgroundPUT, wait_for_background_puts"),("flush","hxhim::FlushPuts")],["hxhim::FlushPuts","hxhim::FlushGets"])
prop("C23","No data races",
 "No two threads of one process access the same memory without synchronisation, one of them writing: the user's thread, which may queue and flush operations, read results and histograms, sync and close at any time, and the background PUT thread of the same instance.",
 ["schedules","histories"],"all histories and schedules with asynchronous PUTs enabled",
 "The tests are not run under a race detector, and a lost race usually shows nothing.",
 ["src/hxhim/init.cpp","src/hxhim/ops","include/hxhim/private/process.hpp","src/datastore","src/transport"],[("queues","hxhim_private::queues.puts.mutex"),("results","hxhim_private::async_puts.mutex")],["all public calls"])
prop("C05","Requests stay within the configured limits and carry every operation once",
 "No request packet carries more operations than the maximum number per request, or, unless it carries a single operation, more bytes than the maximum size; both limits hold for the packed packet on the wire. The packets a flush sends to a datastore carry exactly the operations queued for it, each once, in the order they were queued, and a new packet starts only where the next operation does not fit the last one.",
 ["inputs","configurations"],"all operation sequences, value sizes and limits",
 "The tests never look at packets.",
 ["src/hxhim/ops/impl.cpp","include/hxhim/private/process.hpp","src/message"],[("packets","setup_packet, get_packet, PutImpl"),("sending","hxhim::process")],["Transport::EndpointGroup::communicate"])
prop("C24","Every rank reaches every datastore and gets its own results",
 "With any number of ranks and any layout, an operation of any rank acts on the one datastore its hash names, on the rank that holds it; what one rank put, every rank reads after the flush. Each flush returns to the rank that queued them exactly one result list with the results of its own operations, with its own buffers, in queue order per datastore, whatever the order in which requests are handled and responses arrive.",
 ["histories","configurations"],"all layouts, histories and delivery orders",
 "The tests run with one rank.",
 ["include/hxhim/private/process.hpp","src/hxhim/init.cpp","include/transport","src/message","src/hxhim/Results.cpp"],[("routing","hxhim::process, queues.ds_to_rank"),("range server","Transport::local::range_server"),("results","hxhim::Result::AddAll")],["hxhim::Results"])
prop("C25","Concurrent ranks over MPI get every result right and never wait forever",
 "With the MPI transport, ranks that operate at the same time each get exactly one result per operation, with their own buffers, in queue order per datastore: a rank reads its own pairs exactly as it left them and those of others with a value they have at that time, and after a Sync every rank reads the same contents. "
 "This holds for every delay the network adds, whether sends are buffered or not, with any number of listeners and with asynchronous PUTs; every call returns, and after all ranks have closed no message, receive or request is left behind.",
 ["schedules","histories","configurations"],"all schedules, message delays, scripts and layouts",
 "The tests run one rank, so no message is ever sent.",
 ["src/transport/backend/MPI","include/transport/backend/MPI","include/hxhim/private/process.hpp","src/hxhim/hxhim.cpp"],
 [("client side","MPI::EndpointGroup::parallel_send, parallel_recv"),("server side","MPI::RangeServer::listener_thread"),("shutdown","hxhim::Close")],["hxhim::Results","MPI calls"])
prop("C29","Range servers, users and background PUTs of one rank do not race",
 "In a process of a multi-rank world the user's thread, the threads that serve the requests of other ranks and the background PUT thread never access the same memory without synchronisation, one of them writing, whatever operations, flushes, histograms, syncs and closes the ranks run at the same time.",
 ["schedules","histories"],"all scripts and schedules of concurrent ranks",
 "The tests run one rank without a race detector.",
 ["src/datastore","src/transport/backend","src/hxhim"],[("datastores","Datastore::operate, mutex"),("transport","MPI::EndpointGroup::return_msgs")],["all public calls"])
prop("C26","Every form of an operation is the same operation",
 "Single, bulk, single-type, float and double forms of PUT, GET, GETOP, DELETE and HISTOGRAM, in C and in C++, have the same effect as the same operations given one at a time in their generic form: the same results in the same order per datastore, the same stored contents and histograms, however the operations are grouped into calls. "
 "Lists are read only during the call, so the caller may reuse or free them afterwards; an empty list is accepted and does nothing. Every form refuses a missing instance, list or required argument with HXHIM_ERROR and no trace; an element of a list that is missing, or that the hash gives no datastore, makes the call return HXHIM_ERROR and only that element is left out, a PUT with all its orderings.",
 ["programs","inputs","histories"],"all histories and all ways to cut them into calls",
 "The tests use the forms on separate fixed data and leave most C and single-type forms out.",
 ["src/hxhim/ops","include/hxhim/hxhim.h","include/hxhim/single_type.h","include/hxhim/float.h","include/hxhim/double.h"],[("forms","hxhim::Put, BPut, BPutSingleType, PutFloat, BPutDouble, ... and hxhimPut, ..."),("common parts","PutImpl, GetImpl, GetOpImpl, DeleteImpl, HistogramImpl")],["hxhim::Results"])
prop("C28","User transform functions decide exactly what is stored and read",
 "Every subject, predicate and object of a data type with user transform functions goes through that type's encode function, with its own extra argument and the exact bytes given, before it is stored, and comes back through the decode function, which gets exactly what encode returned; types without user functions keep the default transform, with the configured number symbols and precisions, and a missing function stores bytes as they are. "
 "Records are ordered by their encoded bytes. A value that cannot be encoded or decoded fails exactly the operations that need it, with an ERROR result, stores nothing, and affects no other operation.",
 ["programs","inputs","histories","configurations"],"all transform functions, data types, number formats and histories",
 "The tests call the default transforms directly; no test sets a transform function.",
 ["src/datastore/datastore.cpp","src/datastore/transform.cpp","include/datastore/transform.h","include/datastore/datastore.tpp","src/hxhim/init.cpp","src/hxhim/options.cpp"],[("set-up","init::transform"),("use","Datastore::encode, Datastore::decode"),("scans","BGetOp_copy_response")],["hxhim::Results","the callbacks' arguments"])
prop("C30","Results belong to the user and stay as they were",
 "Everything a result list returns (statuses, subjects, predicates, objects, histograms) keeps its value until the list is destroyed, whatever is queued, flushed, changed, synced or closed in between, and in whatever order and how often the list is read. Result lists are independent: appending moves results, and destroying one list, in the C or the C++ form, before or after the instance is closed, affects no other and releases no user buffer.",
 ["histories"],"all histories and all orders of reading, appending and destroying lists",
 "The tests read each list once, right after the flush.",
 ["src/hxhim/Results.cpp","include/hxhim/Results.hpp","include/hxhim/Results.h","include/message"],[("ownership","hxhim::Result, Message blobs"),("lists","hxhim::Results::Append, Destroy")],["hxhim::Results accessors"])
prop("C31","Timestamps of a result describe its own operation",
 "The timestamps of each result of a local datastore are those of the operation it answers: hashing and queueing lie between the start and the return of the call that queued it, and packing, sending, receiving, unpacking and handing out the result follow in that order, up to the end of the flush that returned it (and, without asynchronous PUTs, not before that flush began). All forms of the epoch agree and name one time, when the process opened its first instance.",
 ["histories","configurations"],"all histories, layouts and request limits",
 "The tests never look at timestamps.",
 ["include/transport/backend/local/RangeServer.hpp","src/utils/Stats.cpp","src/hxhim/ops","src/hxhim/Results.cpp","include/hxhim/private/process.hpp"],[("collection","Message::Request timestamps, range_server, Result::init"),("epoch","Stats::init, hxhim::GetEpoch")],["hxhim::Results::Timestamps"])
prop("C27","Instances open, work and close in any order and leave nothing behind",
 "Init, Open, OpenOne and Close can follow each other in any order on any number of instances, with work queued or not: Open and OpenOne succeed if and only if their datastores can be opened, a failed one leaves a closed instance, and after Close the instance can be initialised and opened again and works. "
 "Every call that the instance's state does not allow (or with no instance at all) is refused with HXHIM_ERROR or no results, in every form, and changes nothing. A closed instance has freed everything it used: memory, threads, open files and locks on its datastores; instances of one process do not affect each other.",
 ["histories","configurations","fault_sequences"],"all sequences of lifecycle calls, operations and failures over all configurations, and every call in every state",
 "The tests open and close one instance once, successfully, and call nothing afterwards.",
 ["src/hxhim/hxhim.cpp","src/hxhim/private/hxhim.cpp","src/hxhim/ops/FLUSH.cpp","src/datastore/datastore.cpp","include/datastore/datastore.tpp","src/hxhim/Results.cpp"],
 [("open and clean up","hxhim::Open, OpenOne, Close and hxhim::init / destroy"),("state checks","hxhim::valid, started"),("memory of the operations","include/datastore/datastore.tpp")],["return codes, hxhim::Results, allocated bytes, open files, threads"])
prop("C32","Records that cannot be decoded fail alone; the rest of the datastore works",
 "Whatever records the files of a datastore contain (cut, changed or foreign ones, records of other number symbols, incomplete stored histograms), Open and OpenOne succeed, and every operation returns its result without reading or writing outside of any record and without changing a record it was not asked to change. "
 "A GET whose stored value cannot be decoded and a GETOP that reaches a record that cannot be decoded return one result with HXHIM_ERROR; all other operations return what they would return without such records. "
 "A stored histogram that is not complete counts as not stored.",
 ["inputs","histories"],"all contents of the files a datastore can be opened on, and all operations on them",
 "The tests only read what the same test wrote.",
 ["src/datastore/triplestore.cpp","src/datastore/datastore.cpp","include/datastore/datastore.tpp","include/datastore/transform.tpp","src/datastore/LevelDB.cpp","src/datastore/RocksDB.cpp","src/utils/Histogram.cpp","include/utils/elen.tpp"],
 [("taking keys apart","key_to_sp"),("taking values apart","Datastore::remove_type"),("decoding numbers","Transform::decode, elen::decode"),("reading histograms","Histogram::unpack, ReadHistogramsImpl")],["hxhim::Results of GET, GETOP and HISTOGRAM","the records in the database files"])
prop("C33","The statistics of an instance count every call, packet and operation once",
 "At any time the statistics an instance reports agree with what was done since it was opened: for every kind of operation the number of accepted single calls and of accepted bulk calls (calls that were refused are not counted), the number of packets sent to each datastore, and their average fill, which times their number is the number of operations executed. "
 "An operation counts where it was executed, with PUTs once per stored ordering; without a size limit packets are filled up to the limit before another one is started. The counters of each datastore agree with them: one PUT event per PUT packet, one read event per GET packet, per GETOP and per HISTOGRAM packet. All times are finite. Printing the statistics or the print buffer changes nothing, and the stream printed to stays usable.",
 ["inputs","histories","configurations"],"all histories of calls and flushes over all configurations",
 "The tests never look at the statistics.",
 ["src/hxhim/Stats.cpp","include/hxhim/private/process.hpp","src/hxhim/ops","src/datastore/datastore.cpp","src/datastore/InMemory.cpp","src/datastore/LevelDB.cpp","src/datastore/RocksDB.cpp"],
 [("counting calls","src/hxhim/ops stats.single_op, stats.bulk_op"),("counting packets","process"),("counters of datastores","Datastore::GetStats")],["hxhim::print_stats","Datastore::GetStats"])
import os
#@@MORE
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
open(os.path.join(V,'properties.jsonl'),'w').write("".join(json.dumps(p)+"\n" for p in P))
