COMMON = "Bounded: every value inside the bounds listed in the evidence file, none outside. Trusts the SSA builder, the symbolic interpreter (cross-checked by replaying solver models on the compiled code) and z3. "

def P(id, title, statement, over, forall, why, files, mech, observe, note):
    return dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=["src/" + f for f in files],
                mech=mech, observe=observe, note=COMMON + note)

PROPS = [
P("C01", "A hash slot has exactly one owner and lookup finds it",
  "Looking up the owner of any slot returns exactly the server whose declared ranges contain that slot, and reports none when no range does. A set of declared ranges in which two servers claim a common slot is refused, and one in which none does is accepted. Slot range text is accepted exactly when it denotes valid ranges inside the slot space.",
  ["inputs", "configurations"], "all slots 0..16383, all sets of up to 4 (thorough 6) ranges over all boundaries, all range texts up to 5 (6) bytes",
  "The existing test looks up two slots in one layout; the boundaries of every layout are not sampled.",
  ["common/hashslot/hash_slot.go", "common/hashslot/edge.go"] , [("binary search over ordered edges", "src/common/hashslot"), ("overlap rejection on wrapping", "src/common/hashslot")], ["result and error of lookup and wrapping"],
  "String keys are covered through the slot number computed from them; the CRC itself is computed concretely."),
P("C02", "Combining and removing slot sets is exact set union and difference",
  "Combining two slot sets contains exactly the slots of either, and removing one from another leaves exactly the slots of the first that are not in the second, with their owner kept. The result is always a normalised list of ordered, disjoint, non-empty ranges.",
  ["inputs"], "all pairs of range lists with up to 2 (thorough 3) ranges per side over the whole slot space",
  "Tests use one hand-written example each; edge cases of touching and nested ranges are unbounded.",
  ["common/hashslot/edge.go"], [("sort, merge and split of ranges", "src/common/hashslot")], ["returned range lists"], ""),
P("C06", "Concurrent groups never lose an error and never finish early",
  "Whatever the interleaving of workers and waiter, an error or panic of a worker that is delivered before it finishes is what the waiter gets, and the waiter reports success only after every worker has finished without one. A group with a limit never runs more workers at once than its limit.",
  ["schedules"], "all interleavings of up to 2 (thorough 3) workers with bounded preemptions, each worker succeeding, failing or panicking",
  "The losing interleavings need a preemption between two statements; tests run one schedule.",
  ["common/util/done_group.go", "common/graceful/graceful.go"], [("error channel and wait group", "src/common/util/done_group.go")], ["result of the wait call"],
  "Schedules are explored at synchronisation operations (sequentially consistent memory); a schedule that native stress cannot hit is still reported."),
P("C13", "Sizes and byte ranges in text are read exactly or refused",
  "A size text is accepted exactly when it is decimal digits with an optional known unit in any letter case, and then denotes number times unit; a size that does not fit in 64 bits is refused. A Range header is accepted exactly when it starts with bytes= and every number in it is well formed, and then yields exactly the listed positions. A size written out to a configuration reads back as the same size.",
  ["inputs", "configurations"], "all texts up to 4 (thorough 5) bytes, all numbers up to 12 (18) digits with every unit, all range lists up to 4 (6) bytes after the unit",
  "Tests parse a handful of sizes; overflow and malformed texts are not among them.",
  ["common/datasize/datasize.go", "common/request/range.go"], [("regular expression and unit table", "src/common/datasize/datasize.go"), ("range parsing", "src/common/request/range.go")], ["parsed value and error"], ""),
P("C14", "Stored and transmitted records survive encoding unchanged",
  "Object metadata, version and bucket records of any content decode to the same record they were encoded from, alone and in lists, with order and number kept. Decoding a truncated or arbitrary byte string as a list ends in whole items or an error, never in a crash or an altered item.",
  ["inputs"], "all values of each group of numeric and flag fields, strings up to 2 bytes, lists up to 3 (thorough 4) items, every truncation point, all byte strings up to 6 (8) bytes",
  "The test encodes ten fixed records; integer width classes and truncations are not sampled.",
  ["common/proto/msg/metadata_gen.go", "common/proto/msg/metadata.go", "common/util/util.go"], [("generated msgpack code", "src/common/proto/msg/metadata_gen.go"), ("length-prefixed list codec", "src/common/util/util.go")], ["decoded records and error"], ""),
P("C19", "Aligned, limited and joined readers lose and invent no bytes",
  "Copying through the padding reader yields the source followed only by zeros up to a block boundary; the limited reader yields exactly the first N bytes of its source whatever the buffer, and asks the source for whole blocks when its buffer is whole blocks; the joining reader yields the concatenation of its sources and fills every buffer. A source that fails is reported as failed, never as finished and never as an endless loop.",
  ["inputs", "fault_sequences"], "all contents at block boundaries, lengths 0..3 blocks at and around every boundary, short reads and failures at chosen points",
  "No test covers these readers; short reads and failures between blocks are schedules of the source that tests do not produce.",
  ["common/system/disk/aligend_reader.go", "common/system/disk/multi_reader.go"], [("padding and limiting of reads", "src/common/system/disk/aligend_reader.go"), ("joining of sources", "src/common/system/disk/multi_reader.go")], ["bytes and error of reads"], ""),
P("C28", "Paging, slicing and wildcard helpers are exact",
  "A page is a valid, non-empty slice of at most the page size, consecutive pages tile the list, and pages that do not exist are reported as such for any page number and size. Wildcard patterns match exactly when * stands for any run and ? for one character. Chunks, fills and searches over slices return exactly the requested positions.",
  ["inputs"], "all page numbers and totals below 2^40 for 12 page sizes, all patterns and names up to 3 (thorough 4) ASCII characters, all slices up to 5 (8) elements",
  "Tests use one example each.",
  ["common/util/util.go", "common/wildcard/wildcard.go", "common/util/slices/slices.go", "common/util/math/math.go"], [("page arithmetic", "src/common/util/util.go"), ("recursive matcher", "src/common/wildcard/wildcard.go")], ["returned positions and booleans"], ""),
P("C07", "The latest and first version and every page of versions are the right ones",
  "After any sequence of adding and removing versions of an object, the latest version is the one with the highest number among those present, the first the one with the lowest, and a listing page holds the requested number of versions in order of their numbers. Numbers are never given twice and the counts of versions agree with what is present.",
  ["inputs", "histories"], "all sequences of up to 4 (thorough 6) additions and removals on up to 12 existing versions, all page numbers and sizes in a small range",
  "The metadata module has no stable test; ordering errors appear only from the tenth version on or after removals in a particular order.",
  ["metaserver/internal/usecase/logic/metadata_logic.go", "metaserver/internal/usecase/repo/metadata_repo.go"], [("first/last sequence kept beside bolt keys", "src/metaserver/internal/usecase/logic/metadata_logic.go"), ("paging", "src/metaserver/internal/usecase/service/metadata_service.go")], ["versions returned and their numbers"],
  "bbolt is modelled as ordered nested maps with copy-on-write transactions; the same harness runs on the real bbolt in the native replay."),
P("C08", "Metadata operations agree with a plain map, indexes included",
  "Any sequence of adding, updating, removing and reading metadata and versions - directly or through the batch path the raft log uses - answers as a plain map of objects would. A version is found by its hash and by its unique id exactly while it exists, and updating the locates of a hash changes exactly the requested position of the versions with that hash.",
  ["histories", "inputs"], "all sequences of 2 (thorough 3) operations out of 10 kinds on 2 objects from 4 starting histories, with symbolic record fields",
  "Index entries that outlive their record, or vanish with another one, need a sequence of operations on several objects.",
  ["metaserver/internal/usecase/logic/metadata_logic.go", "metaserver/internal/usecase/logic/hash_index_logic.go", "metaserver/internal/usecase/repo/metadata_repo.go", "metaserver/internal/usecase/repo/batch_meta_repo.go"], [("record buckets and index buckets written in one transaction", "src/metaserver/internal/usecase/repo")], ["results and errors of repository calls"],
  "bbolt is modelled as ordered nested maps with copy-on-write transactions; the same harness runs on the real bbolt in the native replay."),
P("C09", "Replicas that apply the same raft log hold the same state",
  "Applying a run of log entries in one batch leaves the same database and gives each entry the same outcome and data as applying them one by one, for well-formed and malformed entries alike. A batch that cannot be made durable reports every entry of it as failed. A snapshot holds exactly the state it was taken at and restoring it yields that state; applying entries that add records again after a restart adds nothing twice.",
  ["histories", "fault_sequences"], "all runs of 2 (thorough 3) entries out of 15 kinds on 2 objects from 3 starting histories, with symbolic record fields; all replays of histories of up to 2 (4) additions",
  "Batching boundaries are chosen by raft at run time; no test drives the state machine.",
  ["metaserver/internal/usecase/raftimpl/fsm_impl.go", "metaserver/internal/usecase/repo/batch_meta_repo.go", "metaserver/internal/usecase/repo/batch_bucket_repo.go"], [("one FSM over a per-entry and a batched repository", "src/metaserver/internal/usecase/raftimpl/fsm_impl.go"), ("database file as snapshot", "src/metaserver/internal/usecase/raftimpl/fsm_impl.go")], ["FSM responses and database content"],
  "hashicorp/raft itself is outside; the FSM it drives is inside. bbolt is modelled and replaced by the real one in the native replay."),
P("C10", "Slot migration moves exactly its slots' data and survives any failure",
  "Moving slots between metadata servers moves exactly the objects, versions and buckets whose keys hash into them, unchanged in every field, and afterwards both servers name the new owner; everything else stays where it was, and moving the slots back restores the original state. Whenever a step fails - the target refuses an item or the handover, or the source cannot save its slots - no record is lost, the source still has all its data unless the target already owns the slots, both servers can be written again, and a retry moves the current state. A prepared migration that never starts is given up after its timeout.",
  ["histories", "fault_sequences"], "all moves of 6 slot sets over 3 keys with 0..2 versions and symbolic fields, a failure at every step, a retry after a write",
  "No test migrates; data loss needs a failure between the last item and the handover.",
  ["metaserver/internal/usecase/service/hashslot_service.go", "metaserver/internal/usecase/db/hashslot_db.go", "metaserver/internal/controller/grpc/hashslot_server.go"], [("stream of items, handover of the slots, removal at the source", "src/metaserver/internal/usecase/service/hashslot_service.go"), ("migration state machine", "src/metaserver/internal/usecase/db/hashslot_db.go")], ["records of both servers and owners of the slots after each step"],
  "etcd and bbolt are modelled (the replay uses the real bbolt and a loopback gRPC connection). Writes that reach the source while a migration streams are outside."),
P("C11", "Only the owner of a key that may write accepts a write to it",
  "A metadata server accepts a write over gRPC or HTTP exactly when it is not migrating, leads its raft group if it has one, and it or the leader it follows owns the slot of the key; otherwise the request is refused and changes nothing. A request for a key of another server is referred to that server, over HTTP with the same path and query. Cluster commands are accepted only where they make sense: members are changed by the leader, a leader joins nobody, and migrations start on a writable server.",
  ["inputs", "configurations"], "all 9 gRPC and 9 HTTP key requests and 8 commands, in every raft role and migration state, for keys owned by this server, its leader, another server or nobody",
  "Acceptance depends on the request kind, raft role, migration state and owner together; no test drives the routers.",
  ["metaserver/internal/controller/grpc/middleware.go", "metaserver/internal/controller/http/middleware.go", "metaserver/internal/controller/grpc/grpc.go", "metaserver/internal/controller/http/http.go"], [("interceptor chain", "src/metaserver/internal/controller/grpc/middleware.go"), ("gin middleware", "src/metaserver/internal/controller/http/middleware.go")], ["calls that reach the services, status and location of the answer"],
  "The real interceptors, dispatch descriptors and gin router run; the gRPC transport, request validation and JSON are stand-ins in the symbolic run and real in the native replay."),
P("C12", "Requests are let through exactly when access is granted",
  "With authentication on, a request to the API reaches its handler exactly when the callback answers 200 for the bucket, object, version and method that the handler then uses, or its basic credential equals the stored one; a callback or etcd that fails grants nothing, and a denied request is never answered as a success. An upload is continued only in the bucket that the callback allowed, and the credential that was stored first is never overwritten by the configuration. Configurations shown by the servers tell none of their credentials and showing them changes nothing.",
  ["inputs", "faults", "configurations"], "9 routes x enabled validators x 6 callback answers x hosts and bucket headers x 7 Authorization headers, stored credentials of 1-2 symbolic bytes each, etcd failing at start or at a request",
  "Access depends on route, headers, validators, the stored credential and two remote answers together; tests authenticate nothing.",
  ["apiserver/internal/usecase/componet/auth/auth_middleware.go", "apiserver/internal/usecase/componet/auth/callback_validator.go", "apiserver/internal/usecase/componet/auth/password_validator.go", "apiserver/internal/controller/http/server.go", "apiserver/internal/controller/http/internal_api.go", "objectserver/internal/controller/grpc/config_service.go", "metaserver/internal/controller/grpc/config_service.go"], [("authentication chain", "src/apiserver/internal/usecase/componet/auth/auth_middleware.go"), ("configuration page", "src/apiserver/internal/controller/http/internal_api.go")], ["calls that reach the services", "status of the answer", "what the callback is asked", "bytes of the configuration pages"],
  "The real router, middlewares and validators run; the callback service and etcd are stand-ins, YAML is one in the symbolic run. The callback cannot tell bucket management from object access by what it is told."),
P("C34", "API and metadata servers agree on every request between them",
  "Metadata, versions and buckets that the API server saves, updates, removes and reads at a metadata server arrive there and come back with every field unchanged, whatever characters their names have, and a failure comes back with the status the metadata server gave it. An object that is uploaded, repaired while it is read, replaced and aged out through the API is, at the metadata server, exactly the versions that the retention of its bucket leaves, with the locations where its shards really are.",
  ["inputs", "histories"], "versions and buckets of symbolic fields, 8 names with characters that URLs treat specially, histories of 2-3 requests on one object",
  "Each server is right by itself; only the two together show a field, a name or a status that one sends and the other does not take.",
  ["apiserver/internal/usecase/grpcapi/meta_server.go", "apiserver/internal/usecase/repo/version_repo.go", "apiserver/internal/usecase/repo/bucket_repo.go", "apiserver/internal/usecase/repo/meta_repo.go", "apiserver/internal/usecase/webapi/bucket_api.go", "metaserver/internal/controller/grpc/metadata_server.go", "metaserver/internal/controller/http/bucket_rest.go", "common/proto/generate.go", "common/response/response.go"], [("gRPC client", "src/apiserver/internal/usecase/grpcapi/meta_server.go"), ("gRPC service", "src/metaserver/internal/controller/grpc/metadata_server.go")], ["records at the metadata server", "records and statuses at the API server"],
  "Both real servers run in one process, joined by the real generated gRPC stubs and handlers; the wire is a copy of messages in the symbolic run and gRPC over the loopback interface in the native replay. One metadata server without raft; object servers are the stand-ins of C04."),
P("C21", "Buckets decide how and how often their objects are kept",
  "An upload to a readonly or missing bucket is refused and leaves nothing stored; any other is kept compressed if the bucket or the request wants so, with the strategy and shards of the bucket, else those of the request, else by its size with the configured shards. After every upload exactly the last versions remain, as many as the bucket wants at that time (one without versioning, and never none), even after its policy changed, and with two uploads at once.",
  ["inputs", "histories", "schedules"], "all policies and requests with 2 shard layouts and 2 sizes, every Content-Length below 2^40, histories of 4 (thorough 5) uploads with 2 policy changes, a whole second upload before any operation on metadata of the first",
  "Policies combine with requests and with each other, and retention shows only over histories; no test covers either.",
  ["apiserver/internal/entity/metadata.go", "apiserver/internal/usecase/service/object_service.go", "apiserver/internal/controller/http/big_api.go", "apiserver/internal/controller/http/objects_api.go"], [("policies of a bucket", "src/apiserver/internal/entity/metadata.go"), ("retention", "src/apiserver/internal/usecase/service/object_service.go")], ["versions recorded, shards stored, statuses"],
  "Uploads in parts are always erasure coded, so a bucket that wants copies is outside for them. Metadata and object servers are stand-ins; metadata read from a raft follower that lags may delay removal until the next upload."),
P("C22", "Failures are told by their kind, and malformed requests do nothing",
  "A failure with a status, wrapped in others or not, reaches the client over HTTP with exactly that status and its reason, an internal one without its reason; between servers over gRPC the statuses 400, 401, 403 and 404 survive and every other failure is internal. A request to any server with a parameter or body that cannot be parsed, or without one that is required, is answered 400 and changes nothing.",
  ["inputs"], "every status from 200 to 599 in 4 ways of wrapping, about 90 malformed requests to the routes of the API, metadata, object and admin servers",
  "Tests cover no failing request; which error is dropped depends on the order of bindings and on how an error was wrapped on its way.",
  ["common/response/response.go", "common/response/errors.go", "common/response/resp_util.go", "common/proto/generate.go", "apiserver/internal/entity/binder.go", "apiserver/internal/entity/dto.go", "metaserver/internal/controller/http/version_rest.go", "metaserver/internal/controller/http/metadata_rest.go", "metaserver/internal/controller/http/bucket_rest.go"], [("errors to responses", "src/common/response/response.go"), ("binding of requests", "src/apiserver/internal/entity/binder.go")], ["statuses and messages of responses, records kept"],
  "Binding of requests by reflection and JSON are stand-ins in the symbolic run, real in the native replay."),
P("C27", "The metadata cache never serves a stale or foreign record",
  "With the cache in front of the database, every read of metadata or a version after any sequence of completed writes - direct or applied from the raft log - answers what the database holds, whether or not the cache kept the entry. A cached version is never returned as metadata or the other way round.",
  ["histories", "inputs"], "all sequences of 2 (thorough 3) operations with reads between, on 2 objects with confusable names, for a cache that keeps and one that drops entries",
  "A stale entry needs a read, a write and a read in one particular order with the cache enabled.",
  ["metaserver/internal/usecase/repo/metadata_cache_repo.go", "metaserver/internal/usecase/repo/metadata_repo.go", "metaserver/internal/usecase/repo/batch_meta_repo.go"], [("write-through and eviction", "src/metaserver/internal/usecase/repo")], ["records read"],
  "Reads that overlap a write are outside the encoding (a fill can race with an eviction); see DESIGN.md."),
P("C31", "Bucket records are stored, listed and cached exactly",
  "Creating, updating, removing and reading buckets answers as a plain map ordered by name would, an update that is not newer is refused and never loses the creation time, and prefix listing returns exactly the first buckets with that prefix and counts all of them. Bytes handed out by a read stay unchanged by later writes.",
  ["histories", "inputs"], "all sequences of 3 (thorough 4) operations on 3 bucket names with symbolic times and flags, with a keeping and a dropping cache",
  "The bucket store has no test; stale cache entries and aliased database pages need a write after a read.",
  ["metaserver/internal/usecase/logic/bucket_logic.go", "metaserver/internal/usecase/repo/bucket_repo.go", "metaserver/internal/usecase/repo/bucket_cache_repo.go"], [("one bolt bucket of records plus cache", "src/metaserver/internal/usecase")], ["records, order and errors"],
  "bbolt is modelled; the model poisons bytes that outlive their transaction, which the real mmap does only sometimes."),
P("C17", "The object server stores whole objects and returns exactly their bytes",
  "After any sequence of storing and removing objects over HTTP, with cache entries expiring and restarts between, exactly the stored objects exist, any part inside an object reads as the bytes first written there, compressed or not, and the reported capacity is the size of the stored files. A write that fails leaves no object and the next one stores it; a read that fails is never answered as complete; a read beside a write gets the whole object or none. An upload in pieces becomes an object exactly when it is committed, and ended uploads leave no files.",
  ["histories", "inputs", "fault_sequences", "schedules"], "all sequences of 3 (thorough 4) requests over 2 objects, 7 (9) object sizes around block boundaries with 10 offsets and 7 lengths, a failure at every position of the source and every file operation, all interleavings of 2 requests with bounded preemptions",
  "No test drives the object server; partial files, cached parts and stale marks need a failure, an expiry or a second request at a particular point.",
  ["objectserver/internal/usecase/service/objects_service.go", "objectserver/internal/usecase/service/temp_service.go", "objectserver/internal/controller/http/objects/objects_rest.go", "objectserver/internal/controller/http/objects/objects_cache.go", "objectserver/internal/controller/http/temp/temp_rest.go"],
  [("direct I/O with padding", "src/objectserver/internal/usecase/service/objects_service.go"), ("byte cache in front of files", "src/objectserver/internal/controller/http/objects/objects_cache.go"), ("upload records kept in the cache", "src/objectserver/internal/usecase/service/temp_service.go")], ["status, headers and bodies of responses, files of the stores"],
  "The real gin router and handlers run. Files (with O_DIRECT alignment rules), badger, S2, gob and request binding are stand-ins in the symbolic run and real in the native replay; disk faults exist only in the symbolic run. Reading past the end of an object is outside (the server does not know the exact size)."),
P("C18", "The object path cache finds exactly the recorded paths",
  "After any sequence of recording a path for a name, removing a path and removing all paths of a name, looking a name up yields exactly the paths recorded for it and not removed since, in the order of recording, and iterating yields every name with its paths. Paths of any bytes are kept apart and come back unchanged. Two callers that record paths at once lose neither of them without an error.",
  ["histories", "inputs", "schedules"], "all sequences of 3 operations over 2 names and 4 (thorough 6) confusable paths from 2 starting histories, all paths of up to 2 (3) bytes, all interleavings of 2 callers with bounded preemptions",
  "No test covers the path cache; paths that contain each other and separators inside paths are not sampled.",
  ["objectserver/internal/db/object_path_cache.go"], [("path list encoded in one badger value", "src/objectserver/internal/db/object_path_cache.go")], ["paths and errors of the cache"],
  "badger is modelled as an ordered map with optimistic transactions; the replay uses the real badger."),
P("C23", "New objects go to the allowed mount point with the most free space",
  "For any set of mount points with any free space the one chosen has the most free space of those last reported, and the fallback is used only when there is none; choosing changes neither the set nor its order for requests that search it. After an update the mount points are exactly those the system reports that can be read and are allowed (the allow list wins over the deny list), and a failed report changes nothing. A file is found on whichever mount point holds it.",
  ["inputs", "histories"], "all 64-bit free sizes of up to 4 (thorough 6) mount points, all allow and deny lists over 3 (4) names, all sequences of 2 reports with a failure at any one",
  "No test covers the driver manager; choosing used to reorder the list under concurrent searches.",
  ["objectserver/internal/usecase/component/driver_manager.go", "objectserver/internal/usecase/component/driver_balancer.go"], [("shared list of mount points", "src/objectserver/internal/usecase/component/driver_manager.go")], ["chosen mount point, list of mount points"],
  "What the operating system reports is a stand-in in both runs; the unused weighted balancer is outside."),
P("C32", "Objects move between object servers without loss",
  "When a server sends objects away, leaves, or is asked by one that joins, an object arrives byte for byte at one server and is dropped at the source only after the target holds it whole and every metadata server accepted its new place; whatever is not handed over stays readable and the failure is reported. An object that did not arrive whole does not exist at the target. Shares are even: no server takes more than its even share but for the last object, a joining server asks exactly those above the share for what they have above it, and the capacity stays the size of the stored objects.",
  ["histories", "inputs", "fault_sequences"], "up to 3 objects, 3 servers and 4 (thorough 5) metadata servers with every combination of their answers, capacities and of the failures at each step",
  "No test drives migration; a transfer cut off, a metadata server that refuses or a target that fails are needed to lose an object.",
  ["objectserver/internal/usecase/service/migration_service.go", "objectserver/internal/controller/grpc/migration_server.go", "objectserver/internal/usecase/webapi/meta_server.go"],
  [("streams of object data", "src/objectserver/internal/controller/grpc/migration_server.go"), ("metadata updates over HTTP", "src/objectserver/internal/usecase/webapi/meta_server.go")], ["answers of the commands, files of both sides, requests sent"],
  "The peer and the metadata servers are fakes that fail as told; gRPC is direct calls in the symbolic run and real over loopback in the replay. Writes beside a migration are outside."),
P("C03", "A stored object reads back byte for byte with every strategy",
  "An object that is uploaded through the API service - erasure coded into any number of data and parity shards or copied, compressed or not, as the bucket or the configuration says - has every shard or copy on the server its version names and reads back exactly as it was sent. When any request fails on the way the upload reports it and leaves no version, unless the tolerated number of copies allows it to succeed; a version that exists is always readable. Content whose checksum or size is wrong is refused, and a new version does not change the former ones.",
  ["inputs", "fault_sequences", "configurations"], "all contents (every byte symbolic) of up to 10 sizes around block boundaries, 1..4 (thorough 6) data and 0..2 parity shards, 1..4 copies, a fault of 4 kinds at every request, every source cut short",
  "The API server has no test; sizes off block boundaries and a failing request in the middle are not sampled by anything.",
  ["apiserver/internal/usecase/service/object_service.go", "apiserver/internal/usecase/service/rs_encoder.go", "apiserver/internal/usecase/service/rs_put_stream.go", "apiserver/internal/usecase/service/rs_decoder.go", "apiserver/internal/usecase/service/copy_put_stream.go", "apiserver/internal/usecase/service/copy_get_stream.go"],
  [("block-wise Reed-Solomon split over shards", "src/apiserver/internal/usecase/service/rs_encoder.go"), ("mirrored writes", "src/apiserver/internal/usecase/service/copy_put_stream.go")], ["stored shards, version records, bytes read"],
  "Object servers, metadata and buckets are fakes behind the real HTTP client that behave as C17 and C07 describe; pages are scaled down to 4..16 bytes. Real Reed-Solomon code runs (its GF(256) tables are encoded as linear maps)."),
P("C04", "Reading an object over HTTP gives exactly the asked bytes or an error",
  "A GET of an object or of one of its versions answers with exactly the bytes stored or the bytes of the asked range, with their true length, also when as many shards are lost as can be; a range behind the end is refused. When servers fail, refuse or break off so that the bytes cannot be given, the response is an error or visibly incomplete, never complete with other bytes.",
  ["inputs", "fault_sequences"], "all ranges over contents (every byte symbolic) of 2 (thorough 3) sizes with each shard lost, up to 2 versions, every combination of 5 faults on 3 shards",
  "No test reads through the API; ranges after a lost shard and broken bodies are not sampled.",
  ["apiserver/internal/controller/http/objects_api.go", "apiserver/internal/usecase/service/rs_get_stream.go", "apiserver/internal/usecase/service/get_stream.go", "apiserver/internal/usecase/service/copy_get_stream.go"],
  [("gin handler over streams of shards", "src/apiserver/internal/controller/http/objects_api.go")], ["status, length and body of responses"],
  "The real gin router and handlers run with fake object servers. Suffix ranges (bytes=-n) and bytes=0-0 are outside: the range type cannot tell them from open ranges."),
P("C05", "An object survives the loss of as many shards as it has parity",
  "An erasure-coded object with at most as many shards lost as it has parity shards - missing, or on servers that are down - reads back exactly and can be read again; a copied object reads back as long as one copy is left. With more lost, reading fails and never yields other bytes.",
  ["inputs", "fault_sequences"], "all contents (every byte symbolic) of 4 sizes, every set of lost shards of 3 (thorough 4) kinds of codes, every set of lost copies of 1..3",
  "Which shards are lost and where the block boundaries lie combine; no test loses a shard.",
  ["apiserver/internal/usecase/service/rs_get_stream.go", "apiserver/internal/usecase/service/rs_decoder.go", "apiserver/internal/usecase/service/copy_get_stream.go"],
  [("Reed-Solomon reconstruction of blocks", "src/apiserver/internal/usecase/service/rs_decoder.go")], ["bytes and errors of reads"],
  "The real Reed-Solomon library runs on symbolic bytes. Pages are scaled down."),
P("C16", "Locating a shard names exactly the servers that hold it",
  "An object server answers a question for a shard exactly if it has it, once, with its own address and the index of the shard, and goes on answering after malformed questions, failed answers and an ended watch. An object is found exactly when every one of its shards is, each at a server that answered for it, within the time limit and whatever else is answered; content found that way is not uploaded again and its new version reads back exactly.",
  ["inputs", "fault_sequences", "histories"], "all placements of up to 3 shards on 2 servers with repeated and foreign answers; all states of 2 shards on a server (written, found on disk, removed) with 5 disturbances",
  "Answers arrive in any number and order over etcd; no test locates anything.",
  ["apiserver/internal/usecase/service/object_service.go", "objectserver/internal/usecase/service/locate.go", "objectserver/internal/usecase/service/objects_service.go"],
  [("questions and answers through etcd keys", "src/objectserver/internal/usecase/service/locate.go")], ["answers written, locations returned, uploads made"],
  "etcd is a fake that delivers watch events in order."),
P("C20", "An upload in parts becomes the object exactly when it is whole",
  "An upload that is sent in parts, any of which may break off anywhere, tells how many bytes it keeps; going on from there until the end makes a version that reads back exactly as sent, and not before. Parts from the wrong place, without a range, too long, with the wrong checksum or with a made-up token are refused and make no version. Whatever single request fails, an upload that is reported finished is readable, and content already stored is finished at once.",
  ["inputs", "fault_sequences", "histories"], "all contents (every byte symbolic) of 3 (thorough 4) sizes, 3 codes, 2 (3) interrupted parts of 5 lengths and 3 endings, a fault of 4 kinds at every request",
  "A cut in the middle of a block, or a server that misses a part, needs a particular sequence; no test resumes an upload.",
  ["apiserver/internal/controller/http/big_api.go", "apiserver/internal/usecase/service/rs_resumable_stream.go", "apiserver/internal/usecase/service/rs_put_stream.go", "apiserver/internal/usecase/service/temp_stream.go"],
  [("state of an upload in a token", "src/apiserver/internal/usecase/service/rs_resumable_stream.go")], ["status and headers of responses, versions, bytes read"],
  "Object servers, metadata and etcd are fakes; gob and gin binding are stand-ins in the symbolic run and real in the replay. Two clients continuing one upload at the same time are outside."),
P("C29", "Reading repairs lost shards and never harms an object",
  "After a whole read of an object, the shards found lost, or the copies found lost beyond the tolerated number, are stored again with their former content on servers the version now names, and the object reads back exactly from what is named. A read of a part, or a repair that fails at any request, leaves the version naming only shards that hold their content, and does not change what the read answers.",
  ["inputs", "fault_sequences", "schedules"], "all contents (every byte symbolic) of 2..3 sizes, every set of lost shards of 3 codes, every number of lost copies, a fault at every repairing request, repairs during the read or after it, interleavings of the repair at its blocking points",
  "A repair that saves half a shard is noticed only when other shards are lost later; no test repairs.",
  ["apiserver/internal/usecase/service/rs_get_stream.go", "apiserver/internal/usecase/service/rs_decoder.go", "apiserver/internal/usecase/service/copy_fix_stream.go", "apiserver/internal/usecase/service/copy_get_stream.go"],
  [("lost shards rewritten while reading", "src/apiserver/internal/usecase/service/rs_get_stream.go")], ["stored shards, updated version, bytes read"],
  "A shard that is found too short in the middle of a read is not repaired; two lost shards may be restored to one server."),
P("C15", "Servers for shards are spread evenly, least loaded first",
  "Choosing servers for shards or copies returns only registered object servers and none twice before all were chosen. With the strategies by space and by IO, the ones reporting the smallest load of all, whatever its size, come first, ones that cannot be reached come last, and loads older than a minute are asked for again. An object server reports the size of its objects and the average load of all its drives.",
  ["inputs", "fault_sequences"], "1..3 (thorough 4) servers with all loads of 1 or 10 digits, each unreachable, refusing or answering, 0..5 (8) shards, 4 spellings of strategies; 0..3 drives with all 32-bit counters",
  "Wrong orders and double choices need particular loads; no test selects servers.",
  ["apiserver/internal/usecase/componet/selector/selectors.go", "apiserver/internal/usecase/componet/selector/space_first_selector.go", "apiserver/internal/usecase/componet/selector/weighted_io_first.go", "apiserver/internal/usecase/logic/discovery_logic.go", "common/system/disk/stat.go"],
  [("selection of object servers", "src/apiserver/internal/usecase/componet/selector/selectors.go")], ["chosen servers, reported loads"],
  "Counters of drives are a stand-in for the operating system's."),
P("C25", "Every server knows exactly the servers registered now",
  "Whatever registrations, changes of role and departures happen before, while or after a server starts watching, and although listing fails or watching ends or is cancelled meanwhile, it settles on exactly the servers registered under each service it asked for, under the right id, address and role, and itself once. Services and groups whose names start alike or hold underscores are told apart.",
  ["histories", "fault_sequences", "inputs"], "3 servers of 2 services whose names start alike, all groups and ids of 2 bytes without slash, 2 (thorough 3) changes at all 4 moments, 4 kinds of faults; default ids of addresses of 2 (3) numbers per part",
  "The order of listing, watching and changes decides what is missed; no test has an etcd.",
  ["common/registry/etcd_discovery.go", "common/registry/etcd_registry.go", "common/registry/config.go", "common/registry/service_list.go"],
  [("listing and watching of registered servers", "src/common/registry/etcd_discovery.go")], ["servers known of each service"],
  "Etcd is a stand-in with revisions, watches and leases in one process."),
P("C26", "A running server stays registered once, in its current role",
  "While etcd refuses leases, leases are not renewed or expire, and the role given by raft changes, a server ends up registered exactly once, under the key of its current role and bound to a lease that is alive, and everyone who subscribed knows that lease. A server that is closed, at any moment, leaves neither a registration nor a lease behind, and asking for the lease never blocks.",
  ["schedules", "fault_sequences"], "1 (thorough 2) changes out of expiry, loss of renewal and change of role, 3 kinds of faults, up to 1 (2) preemptions beside all orders at blocking points; up to 3 (4) changes of leadership in all orders of their listeners",
  "A registration lost or kept under a dead lease needs a particular order of goroutines.",
  ["common/registry/etcd_lifecycle.go", "common/registry/etcd_registry.go", "metaserver/internal/usecase/logic/registry_logic.go", "metaserver/internal/usecase/raftimpl/raft_impl.go"],
  [("lease renewal and re-registration", "src/common/registry/etcd_lifecycle.go"), ("order of leadership changes", "src/metaserver/internal/usecase/raftimpl/raft_impl.go")], ["keys and leases in etcd"],
  "A registration that etcd refuses is repeated with the next lease only."),
P("C30", "The admin console shows the cluster as it is and commands the named server",
  "Turning the pages of objects or buckets shows everything the master metadata servers hold once, in order, with the same total on every page, and a list that cannot be complete is an error. A command (migration, joining, leaving, peers, configuration) reaches the named server alone and succeeds exactly if that server says so; a request to an API server carries the names and the credential given and its answer is passed on whole, given up or an error, and no connection is left open. The servers, masters, states and load timelines shown are those registered and saved, however etcd and its watches behave.",
  ["inputs", "histories", "fault_sequences"], "3 (thorough 4) objects or buckets on 2 masters with symbolic names and every page size, every pair (triple) of commands on 4 servers, names of 1 (2) symbolic bytes, histories of 3 (4) samples and broken watches",
  "The admin server has no test; its pages are wrong only for some names and page numbers, its timelines only after an etcd fault.",
  ["adminserver/internal/usecase/logic/metadata_logic.go", "adminserver/internal/usecase/logic/object_logic.go", "adminserver/internal/usecase/logic/server_monitor.go", "adminserver/internal/usecase/logic/conn.go", "adminserver/internal/usecase/db/server_stat_db.go", "adminserver/internal/usecase/webapi/api_server.go", "adminserver/internal/usecase/webapi/metadata_server.go", "adminserver/internal/controller/http/metadata.go", "adminserver/internal/controller/http/object.go", "adminserver/internal/controller/http/server_state.go"],
  [("merging sorted lists of servers into pages", "src/adminserver/internal/usecase/logic/metadata_logic.go"), ("samples followed through etcd", "src/adminserver/internal/usecase/db/server_stat_db.go")], ["status, headers and bodies of responses, requests and commands sent"],
  "The console's router and handlers run; sessions, gRPC, JSON and request binding are stand-ins in the symbolic run and real in the native replay (etcd is a stand-in in both). The overview's averages, etcd's own status and multipart uploads are outside."),
P("C33", "Concurrent requests do not race on shared state",
  "No two goroutines of a server, of one request or of several served at the same time, access the same memory without synchronisation where one of them writes. Covered are reading, storing and choosing servers in the API service, all requests of the object server with its mount points being updated, operations on metadata, buckets and slots with migrations beginning and ending, discovery and registration, the collection of system information and of performance records, and requests of the admin console.",
  ["schedules", "inputs"], "all pairs (discovery: triples) of 3 to 11 operations with the faults and sizes of each harness; happens-before order of one schedule for each (server selection: up to 1 preemption)",
  "Races corrupt maps and slices once in many runs; tests run no two requests at once.",
  ["apiserver/internal/usecase/service/copy_put_stream.go", "apiserver/internal/usecase/service/rs_encoder.go", "apiserver/internal/usecase/componet/selector/space_first_selector.go", "objectserver/internal/usecase/component/driver_manager.go", "metaserver/internal/usecase/db/hashslot_db.go", "metaserver/internal/usecase/service/hashslot_service.go", "common/registry/etcd_discovery.go", "common/system/cpu/cpu_unix.go"],
  [("happens-before order of memory accesses", "src/apiserver/internal/usecase/service/copy_put_stream.go")], ["pairs of unordered accesses, confirmed by a native run with the race detector"],
  "Fields of the configuration that commands change at run time are not covered; accesses ordered by luck in the schedule explored are not reported."),
P("C24", "Performance records are kept, counted, averaged and cleared by kind and action",
  "The local performance store returns, counts, sums and averages, for every kind and action given or left open, the records that were stored and not cleared since, and clears exactly those of the kind and action given. A collector hands every record to its store once and in order, at the latest one interval after it was put, when more are in memory than allowed (or drops the eldest, if so configured or if the store fails) and when it is closed; afterwards it stores nothing. Without collection or with the store none nothing is kept and nothing fails.",
  ["histories", "fault_sequences", "inputs"], "sequences of 3 (thorough: 4) stores and clears over 2 kinds and 2 actions with common prefixes and dots, costs of any size; sequences of 6 (thorough: 8) puts, waits and store failures of a collector",
  "Names with common beginnings, clearing by one criterion and timing of flushes are combinations no test has.",
  ["common/performance/local_store.go", "common/performance/store.go", "common/performance/collector.go"],
  [("multiset of records per kind and action", "src/common/performance/local_store.go")], ["results of the store interface"],
  "The etcd store (store: remote) is outside; bbolt is modelled by its documented transactions, cursors and sequences."),
P("C35", "A finished request leaves nothing running and nothing open",
  "Once a request to the API server (storing, reading or uploading an object in parts), to an object server (its objects, uploads and migrations) or a migration between metadata servers has been answered, no goroutine that served it is still running and no response body of another server, no file and no connection it opened is still open. That holds however it ended: succeeded, refused, its source broken off, its client gone, other servers failing at any of its requests, or the disk failing at any operation.",
  ["inputs", "fault_sequences"], "one fault (a server failing once or from then on, in 4 ways, at any of the first 3-10 requests; a disk operation or read failing; a source or client breaking off) in each request, both strategies, lost shards, 2-3 sizes; 1-2 objects and servers in migrations",
  "What leaks is not in any answer: it needs a failure at one point of one request, many times, until a server has no more files, connections or memory.",
  ["apiserver/internal/usecase/service/put_stream.go", "apiserver/internal/usecase/service/rs_put_stream.go", "apiserver/internal/usecase/service/rs_get_stream.go", "apiserver/internal/usecase/service/copy_get_stream.go", "apiserver/internal/usecase/webapi/object_server.go", "common/util/done_group.go", "objectserver/internal/usecase/service/objects_service.go", "objectserver/internal/usecase/service/migration_service.go", "metaserver/internal/usecase/service/hashslot_service.go"],
  [("streams of shards", "src/apiserver/internal/usecase/service"), ("groups of goroutines", "src/common/util/done_group.go"), ("files", "src/objectserver/internal/usecase/service/objects_service.go")], ["goroutines alive, bodies, files and connections open after a request"],
  "Files, connections and goroutines are counted in the symbolic run, whose trace is what is reported; API requests are also replayed natively. Raft commands and background tasks are outside."),
P("C36", "Raft commands keep members and configuration in step",
  "Servers added, moved and removed by commands to the leader are members of the raft cluster exactly if the leader's configuration, in memory and on disk, lists them, once and with their address; a command that raft or the server refuses changes neither. A cluster is started once, of exactly the servers given, else those configured, else the server alone. A server that joins a leader takes over its nodes, its group and its slots.",
  ["histories", "inputs", "fault_sequences"], "all sequences of 3 (thorough 4) commands over 3 servers with a refusal of raft at each, requests to bootstrap of 0-2 servers with 0-2 nodes configured, well formed or not, and joining with failures at each request",
  "Configuration and members drift apart only after particular sequences of commands, and show at the next start.",
  ["metaserver/internal/controller/grpc/raft_cmd_server.go", "metaserver/internal/usecase/logic/raft_cluster_logic.go"], [("raft commands", "src/metaserver/internal/controller/grpc/raft_cmd_server.go"), ("joining a leader", "src/metaserver/internal/usecase/logic/raft_cluster_logic.go")], ["members of the raft cluster, configured and persisted nodes"],
  "Raft is a stand-in that keeps the list of members, so the trace of the symbolic run is what is reported. A server that leaves its former cluster to join another one is outside."),
P("C37", "The slots of a group follow its leader and survive every change of it",
  "Whenever a server becomes the leader of its group, the slots of the group are recorded as its own and are those last recorded, changed by migrations or not; only a group never recorded takes those of the leader's configuration. A leader that cannot read or write the record leaves it as it was, followers and other groups' records are never touched, and every server then refers the slots to the new leader. The leader's configuration keeps the slots for its next start.",
  ["histories", "fault_sequences"], "all sequences of 3 (thorough 5) events (one of 2 servers leads or follows, slots are moved) with a failure of etcd at each request, beside another group",
  "A change of leader right after a migration, or while etcd is away, decides who accepts the keys of the group.",
  ["metaserver/internal/usecase/service/hashslot_service.go", "metaserver/internal/usecase/logic/hashslot_logic.go", "metaserver/internal/usecase/db/hashslot_db.go"], [("leader changes", "src/metaserver/internal/usecase/service/hashslot_service.go"), ("slots in etcd", "src/metaserver/internal/usecase/db/hashslot_db.go")], ["records of slots in etcd, slots every server knows"],
  "Etcd is a stand-in. A leader that shuts down removes the record on purpose, after which the next leader starts from its own configuration: outside."),
P("C38", "What a server tells about itself is fresh and lives as long as it does",
  "While a server runs, however its leases, its load and etcd change, its system information is kept in etcd exactly once, is what the system reported within the last minute, and is bound to the lease the server has now. When the server dies its information goes with its lease, and when it is closed, at any moment, none is left.",
  ["schedules", "fault_sequences", "histories"], "all sequences of 2 (thorough 3) changes out of an expired lease, a lost renewal, a refused save, a new load, an unreadable load and a minute, with none, one or only refused leases at first; closing at every point of saving with up to 1 (2) preemptions",
  "Placement of objects and the console rely on this information; a record of a server that is gone needs a particular order of saving, leases and closing.",
  ["common/system/syncer.go", "common/system/system_info.go", "common/registry/etcd_lifecycle.go"], [("saving system information", "src/common/system/syncer.go"), ("leases", "src/common/registry/etcd_lifecycle.go")], ["records of system information and their leases in etcd"],
  "Etcd and what the operating system reports are stand-ins; runs that span minutes are not replayed natively, the trace of the symbolic run is what is reported."),
P("C39", "The API server asks the group that owns a name, and its leader for changes",
  "Every change of an object's metadata, a version or a bucket is sent once, to the leader of the one group whose slots contain the name, and everything read is read from this leader or from one of the members it names that is registered, also right after slots moved or another member leads. While nobody owns the slot, slots overlap, etcd fails or the leader is unknown nothing is asked of another group and the caller is told; a refusal reaches the caller with its status. Requests at the same time share one connection to a server without a race, and closing closes all of them.",
  ["inputs", "schedules", "fault_sequences"], "every slot and every pair of edges between two groups and a gap, all 10 operations, then any new edge, another leader or an overlap and another operation; all 10 faults; 3 (thorough 4) requests at the same time with up to 1 preemption",
  "Tests of the API server need a running cluster and use one name; an edge off by one sends one name in thousands to a server that refuses it.",
  ["apiserver/internal/usecase/repo/version_repo.go", "apiserver/internal/usecase/logic/hashslot_logic.go", "apiserver/internal/usecase/logic/discovery_logic.go", "apiserver/internal/usecase/grpcapi/base.go", "common/hashslot/hash_slot.go"],
  [("choosing the server", "src/apiserver/internal/usecase/logic/discovery_logic.go"), ("owner of a slot", "src/common/hashslot/hash_slot.go"), ("connections", "src/apiserver/internal/usecase/grpcapi/base.go")], ["the server, method and name of each request, and the error the caller gets"],
  "CRC32 is any function of a name in the symbolic run; the replay searches a name that has the slot. Whether followers are up to date is outside."),
]

NOT_APPLICABLE = []
