import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
B='include/nudb/impl/basic_store.ipp'; X='include/nudb/impl/context.ipp'; R='include/nudb/impl/recover.ipp'
K='include/nudb/impl/rekey.ipp'; V='include/nudb/impl/verify.ipp'; VI='include/nudb/impl/visit.ipp'; C='include/nudb/impl/create.ipp'
PF='include/nudb/impl/posix_file.ipp'; BU='include/nudb/detail/bucket.hpp'; BK='include/nudb/detail/bulkio.hpp'; F='include/nudb/detail/format.hpp'
G='include/nudb/detail/gentex.hpp'; PO='include/nudb/detail/pool.hpp'; CA='include/nudb/detail/cache.hpp'; AR='include/nudb/detail/arena.hpp'
p('C01','Concurrent insert and fetch behave as one atomic insert-once map',
 'While a database is open, concurrent inserts and fetches from any number of threads, racing with background or manual commits, behave as if each took effect atomically at one instant between its call and its return on a map in which a key, once inserted, keeps its exact value for ever. A fetch returns the exact bytes and size that were inserted or reports key-not-found; an insert of a key already present reports key-exists and changes nothing. This holds for every key size, value size, block size, load factor and hash function, including when keys collide, buckets split and buckets spill.',
 ['schedules','inputs','configurations'],'every interleaving of client threads with the committing thread at memory-access granularity, every mix of keys and values, every legal configuration, and several open/close sessions',
 'The unit tests use one client thread and a handful of key sizes; they never interleave a reader with the middle of a commit or force the race between the key-file read and the commit that rewrites the same bucket.',
 [B,G,PO,CA,BU],[('two memory pools, commit-time cache and generation lock','basic_store::fetch, insert, commit'),('linear hashing split and spill','basic_store::split, maybe_spill'),('writer/reader generation fence','gentex_t')],
 [('p0/p1','values being committed / newly inserted',B),('c1','buckets modified by the running commit',B),('buckets_/modulus_','current hash table geometry',B)],
 ['insert/fetch results and values handed to the callback'])
p('C02','Acknowledged data survives every later crash or power loss',
 'Once close has returned without error, or a manual flush of the context has returned and no error has been reported, every value inserted before that call is on stable storage. After any later process kill or power loss, at any instant, opening the database succeeds and fetch returns exactly those values.',
 ['crash_points','schedules','inputs','configurations','histories'],'every crash instant after the acknowledgement (idle, inside later commits, inside close, inside re-open), process kill and power loss with every subset of unsynced sectors lost, any history of earlier sessions',
 'The tests simulate failure by returning an error after N file operations and then reading the same files back; nothing unsynced is ever lost, so a dropped or misplaced sync, or a truncate before a sync, passes every test.',
 [B,R,PF],[('log header, sync, data, log buckets, sync, key buckets, sync data, sync key, truncate log, sync','basic_store::commit'),('roll back from log','recover'),('full fsync','posix_file::sync')],
 [('log file','rollback record of the running commit','*.log')],['fetch results after re-open'])
p('C03','A crash at any instant leaves a consistent prefix of the inserts',
 'After a process kill or power loss at any instant of any operation on an open database, opening it again succeeds and recovers a state in which every value present is exactly one that was inserted, and if a value survived then so did every value whose insert had returned before that insert was called. The recovered database passes verification, the lost keys can be inserted again, and it works on normally.',
 ['crash_points','schedules','inputs','configurations'],'every crash point inside open, insert, background and manual commit and close, with torn, partial, reordered and lost unsynced writes, repeated over several crashes',
 'The recovery test fails the n-th file operation but keeps everything written so far, single threaded, one block size; it does not lose, tear or reorder unsynced writes and does not crash repeatedly.',
 [B,R,BU,BK],[('write-ahead rollback log','basic_store::commit'),('log replay, truncation of data and key file','recover')],
 [('dat_file_size/key_file_size in log header','sizes to roll back to',F)],['fetch results, verify, re-insertion after recovery'])
p('C04','Recovery can be interrupted, repeated and re-run with the same result',
 'Recovery interrupted at any instant by a crash or stopped by an I/O error can simply be run again, any number of times, and ends in the same database contents as an uninterrupted recovery. Running recovery on a database that needs none changes nothing that is stored in it.',
 ['crash_points','fault_sequences','histories'],'crash states left by commits, crash or I/O error at every file operation of recovery, repeated any number of times; explicit recovery calls on clean databases',
 'The test suite runs recovery to completion once per failure; it never crashes inside recovery, loses unsynced recovery writes or recovers twice.',
 [R,B],[('truncate and sync before clearing the log; log erased last','recover')],[('log file','present until recovery is durable','*.log')],['contents after the final recovery'])
p('C05','A failed commit is reported, stops the store and loses nothing committed',
 'If writing, syncing or truncating a database file fails, or the disk is full, while inserted data is being committed, then the failure is not swallowed: close reports an error, and once the failed commit has ended every fetch and insert reports that error until the database is closed. No fetch ever returns wrong data, and after re-opening on a healthy disk everything committed earlier is intact and what survived of the failed commit is a prefix of the inserts.',
 ['fault_sequences','schedules','inputs'],'every file operation of a commit failing with EIO, ENOSPC or a partial write followed by an error, once or persistently, in background, manual and closing commits, followed by close, re-open or crash',
 'The fail_file test stops at the n-th operation but single threaded, one error kind, without partial transfers, and only checks that a later recovery verifies.',
 [B,PF,R],[('sticky error','basic_store::ec_, ecb_'),('error checked after every file operation','basic_store::commit'),('log kept when commit failed','basic_store::close')],
 [('ec_/ecb_','first commit error',B)],['error codes of fetch, insert, close; contents after re-open'])
p('C06','Interrupted and short system calls are invisible',
 'When the operating system interrupts a file operation with EINTR or transfers fewer bytes than asked, every operation still completes with the same result and the same stored bytes as without the interruption. No such event surfaces as an error, lost data or wrong data.',
 ['fault_sequences','inputs','schedules'],'any number of EINTR and any short transfer length at any read, write, sync and truncate of create, open, insert, fetch, commit, close, recover, verify, visit and rekey',
 'The kernel practically never returns short or interrupted transfers on regular files, so the retry loops of the native file class are never executed by a test.',
 [PF],[('retry loops','posix_file::read, write, sync, trunc')],(),['results and stored bytes of every operation'])
p('C07','A failed read affects only the operation that met it',
 'If reading a database file fails during a fetch or insert, that call reports the error, the fetch does not produce a value, and the insert has no effect. The store stays usable: every other and every later operation gives the result it would have given had the failed call never been made.',
 ['fault_sequences','schedules','inputs'],'any read error or unexpected end of file at any read of any fetch or insert, transient or repeated, with other threads and commits running',
 'No test injects a read error into fetch or insert; fail_file counts mix all operations and stop at the first failure.',
 [B,PF],[('error return before any state change','basic_store::fetch, insert, exists'),('locks released by scope','genlock, shared_lock')],(),['error codes and later results'])
p('C08','Inserted data reaches stable storage in bounded time without further calls',
 'With a running context, a value inserted into an open store is on stable storage within a bounded time (about two seconds plus the time the disk needs to write what is buffered) after insert returned, with no further calls by the application. This holds for every store attached to the context, for any number of serving threads, and whatever other stores or clients do.',
 ['schedules','configurations','histories'],'every schedule and clock, any number of stores and serving threads, arrival times of inserts relative to the flush timer, other stores opening and closing; decided by power loss after the bound',
 'Tests call flush by hand or close the store; no test waits for the background flush and none loses unsynced data after the delay.',
 [X,B],[('one-second timer, waiting/flushing lists, serving threads','context::run, flush_one'),('flush','basic_store::flush')],
 [('waiting_/flushing_','stores idle / due for flush',X)],['contents after power loss at the bound'])
p('C09','Slow or stalled disk writes never block readers',
 'While the background commit is stalled in writes or syncs to the disk for any length of time, fetches of stored, of not yet committed and of absent keys keep completing without waiting for the stalled operation or for inserts that are being slowed down, and so do inserts, apart from a delay of a few hundredths of a second per insert when inserts outrun the disk.',
 ['schedules','fault_sequences'],'a stall of any length at any write, sync or truncate of a commit, any mix of concurrent fetches and inserts, any schedule',
 'Tests are single threaded on a fast local disk; a lock held across a sync costs microseconds there and changes no result.',
 [B,G],[('locks released around all commit I/O','basic_store::commit'),('generation lock instead of mutex for disk reads','gentex_t')],(),['simulated latency of fetch and insert during a stall'])
p('C10','Every call returns: no deadlock, livelock or lost wake-up',
 'As long as the disk answers, every call returns: open, close, insert, fetch, manual flush, destroying a store, starting and stopping a context and waiting for its serving threads, in every legal order and concurrency. After the context has been stopped all threads serving it have left and it can be started again.',
 ['schedules','configurations','histories'],'every schedule of any number of stores, client threads and serving threads over contexts started, stopped and restarted, including spurious wake-ups, slow threads and commits in progress at close or stop',
 'The context tests run a few real threads for a moment; a lost wake-up or lock-order inversion needs one specific interleaving.',
 [X,G,B],[('condition variables and counters','context::run, stop_all, erase'),('generation fence','gentex_t::finish, unlock_gen')],
 [('num_threads_, stop_','serving threads and stop request',X)],['termination of each call within a step and simulated-time bound'])
p('C11','Concurrent use is free of data races and memory errors',
 'No legal use of the API, under any interleaving, with any injected disk fault, makes the library read or write memory it does not own, use memory after freeing it, free memory twice, or access the same memory from two threads without synchronisation when at least one access is a write. No legal use trips an internal assertion or ends the process.',
 ['schedules','inputs','fault_sequences','configurations'],'all schedules of concurrent clients, commits, opens and closes of stores on shared contexts, plus recovery, verify, visit and rekey, with faults',
 'A race or overflow rarely changes a test result; the suite is not run under a race detector with adversarial schedules, small blocks and faults.',
 [B,X,PO,CA,AR,BU,BK,G],[('mutexes, shared mutex, generation lock, atomic error flag','basic_store'),('bounds kept by bucket capacity and buffer reservation','bucket, bulkio, buffer')],(),['every instrumented memory access and synchronisation operation of the library'])
p('C12','Rekey rebuilds an equivalent database and is crash-safe',
 'After a successful rekey of a data file, with any block size, load factor, item count and buffer size, the database opens and holds exactly the same keys and values as before, and this survives any later crash or power loss. If rekey fails or is interrupted by a crash at any instant, running recovery brings the data file back to its state before the call and a later rekey succeeds. A block size or load factor no key file can have is reported as an error before any file is touched.',
 ['crash_points','fault_sequences','inputs','configurations'],'data files produced by any history, any rekey parameters from one bucket per pass up, I/O errors and crashes at every operation of rekey and of the recovery after it',
 'The rekey test fails the n-th operation on in-order files with 1000 items and one geometry; nothing unsynced is lost and recovery itself is never interrupted.',
 [K,R],[('header-only key file, rollback log, key file in passes, log erased last','rekey'),('special case for a log with key file size zero','recover')],(),['contents after open, verify'])
p('C13','Visit reports every stored value exactly once',
 'Visiting a data file calls the callback exactly once per stored value with its exact key and value, in the order they are stored, ignoring index records, whatever the sizes of values and transfers. An error from the callback or from reading the file ends the visit and is reported; a truncated or damaged record is never passed to the callback.',
 ['inputs','histories','fault_sequences'],'data files produced by any history with any value sizes (smaller and larger than the read buffer), read errors and short reads at every read, truncation at every byte, error returned by the callback at every position',
 'The visit test reads one healthy file with small uniform values; read errors, truncated files and records crossing the read buffer are not tested.',
 [VI,BK],[('bulk reader with growing buffer','visit, bulk_reader::prepare')],(),['callback sequence and error code'])
p('C14','Verification accepts every sound database and rejects damaged ones',
 'For every database reachable by legal operations and recovered crashes, verification succeeds with either algorithm and any legal buffer size, both algorithms report the same key, value, byte and spill counts, and these equal the true ones. If a stored key is unreachable from the index, or the index refers to something that is not a matching data record, or a file is cut short, verification reports an error; read errors are reported, never ignored.',
 ['histories','inputs','configurations','fault_sequences'],'all databases produced by the simulated histories, all geometries, buffer sizes from the minimum up, single-site damage at every index entry, every record header and key, truncations, read errors at every read',
 'verify is tested on two databases with one geometry and three buffer sizes; its error branches and agreement of the two algorithms on multi-pass, spilled and split databases are not.',
 [V],[('data-to-index and index-to-data passes','verify_normal'),('chunked counting passes','verify_fast')],(),['error code and statistics of verify'])
p('C15','Stored values are never overwritten or moved: the data file only grows',
 'No operation other than rolling back an interrupted commit or rekey ever changes or removes a byte of the data file once written, and a rollback removes nothing that was committed. Every write to the data file is an append of new records at its end.',
 ['histories','schedules','crash_points','fault_sequences'],'every write, truncate, rename or unlink reaching the data file in any history of sessions, commits, crashes, recoveries, rekeys, verifies and visits',
 'Tests look at query results only; a rewrite in place that puts back equal or unreferenced bytes, or a truncate that is too short by a record no test fetches again, goes unnoticed.',
 [B,R,K,PF],[('append mode and recorded data file size','basic_store::commit, recover, rekey')],(),['file-system level trace of the data file'])
p('C16','Create makes a complete empty database or nothing',
 'Create either succeeds and leaves a database that opens, is empty, carries exactly the requested parameters and survives power loss after the return, or it reports an error and leaves behind none of the files it made. It never overwrites, truncates or erases a file that already existed, and invalid parameters are rejected without touching the disk.',
 ['inputs','fault_sequences','crash_points','configurations'],'all parameter combinations, any subset of the three files already existing, an error at every file operation, power loss after return',
 'The create test checks a success and two invalid parameters; no failing operation and no pre-existing file.',
 [C],[('exclusive creation, cleanup flags','create')],(),['files present, their bytes, error code'])
p('C17','Files that do not belong together or are damaged are refused untouched',
 'Open, recover, verify, visit and rekey report an error, and leave every file byte for byte as it was, when a file is missing where it is required, has a foreign or damaged type, version or identity, belongs to another database or another hash function, or is shorter than its header, or when the recovery log names a bucket or a spill which the files do not have. The only files ever touched on such a path are leftovers of a crash that recovery exists to clean up: a recovery log or a key file shorter than its own header. A refused open leaves the store closed and usable for opening another database.',
 ['inputs','configurations','histories'],'every single-field damage of the three headers, exchange of any file (including the recovery log) with that of another database, truncation inside headers, wrong hash function, missing files, with and without a pending recovery log',
 'Tests corrupt a few header fields of otherwise clean databases and check only the error code, never that files are left alone, and never with foreign recovery logs.',
 [F,R,B,V,K],[('header checks','detail::verify overloads'),('order of checks before any write','recover, open')],(),['error code and bytes of all files before and after'])
p('C18','Files follow the documented format exactly',
 'After every successful close, recovery, creation and rekey the data and key files follow the published on-disk format: big-endian headers, data and spill records, bucket layout, sorted hashes and linear-hash placement. Every stored key is in the one bucket, or its spills, that its hash selects, exactly once, so an independent implementation of the format reads the same keys and values and NuDB reads files written by an independent implementation.',
 ['histories','configurations','inputs','crash_points'],'files after any history, geometry, hash function, crash and recovery, decoded by an independent reader; random databases written by an independent writer, read by the library',
 'The tests read files back with the same code that wrote them, so a symmetric change of layout or hashing passes.',
 [F,BU,'include/nudb/detail/field.hpp','include/nudb/detail/stream.hpp','include/nudb/detail/xxhash.hpp','README.md'],[('field and stream encoders','detail/field.hpp, stream.hpp'),('bucket placement','bucket_index, split')],(),['bytes of the files'])
p('C19','Closing releases everything and the database can be used again at once',
 'When an open, close or any tool function returns, successfully or not, every file descriptor and every block of memory it acquired and no longer needs has been released; after a successful close the log file is gone. The same store object, or another one, can then open the same or another database, any number of times.',
 ['histories','fault_sequences','schedules'],'any history of sessions, failed opens, failed commits, failed tool calls and destroyed contexts, with errors at any file operation',
 'Tests exit soon after failing operations; descriptors or memory lost on error paths have no visible effect.',
 [B,PF,X],[('RAII of files, state, buffers','posix_file, basic_store::state, detail::buffer')],(),['open descriptors, heap blocks, directory contents'])
p('C20','Running out of memory never corrupts the database',
 'If memory allocation fails inside a call made by the application, the call either still succeeds or ends with an out-of-memory exception or an error, without effect on what is stored, and the store remains usable or closable. If it fails in the background the process may end, but what is on disk still recovers as after any crash.',
 ['fault_sequences','schedules','inputs'],'failure of any single allocation or run of allocations inside insert, fetch, open, manual flush, verify, visit, rekey and background commits',
 'No test fails an allocation.',
 [B,PO,AR,CA],[('RAII and order of state changes','basic_store::insert, pool_t::insert, arena_t::alloc')],(),['results, exceptions and contents afterwards'])
p('C21','Stores that share a context do not affect each other',
 'Any number of databases may be served by one context; each behaves as if it were alone. An error, stall, open or close of one store does not produce an error, lost, foreign or wrong data in another, and does not stop the other stores from being committed.',
 ['schedules','fault_sequences','configurations','histories'],'several stores with different geometries on one context with several serving threads, faults on the files of one, stores opened and closed while others work, stopping and restarting the context',
 'The context test opens a few stores and inserts; it has no faults and is not part of the reliably passing set.',
 [X,'include/nudb/detail/store_base.hpp',B],[('waiting and flushing lists, per-store state machine','context::erase, flush_one')],[('state_','list the store is on','include/nudb/detail/store_base.hpp')],['results and contents per store'])
p('C22','Inserts are slowed down only when they outrun the disk beyond the burst size',
 'An insert is never delayed by the throttle while the amount of uncommitted data is below the configured burst size. When inserts outrun the measured commit rate with more than a burst of data waiting, each insert is delayed by a short bounded pause, so that memory used for waiting data stays bounded by the burst size plus what is inserted in a few pauses per commit, and the delays stop when the disk catches up.',
 ['schedules','histories','configurations'],'any burst size, disk speed and stall pattern, value sizes and client count, in simulated time',
 'No test sets a burst size or a slow disk.',
 [B],[('rate measurement and 25 ms sleep','basic_store::insert, flush, set_burst')],[('rate, burst, when','measured commit rate, limit, last flush',B)],['simulated duration of inserts and amount of uncommitted data'])
p('C23','Progress reports of rekey, visit and verify are consistent',
 'During rekey, visit and verify the progress function is told first that nothing is done, then amounts that never decrease and never exceed the total, and the total is the same in every report of one call. A successful call reports at least once. An exception is that nothing is reported when the call fails before it starts to work. Whatever is reported, it does not change the result.',
 ['inputs','configurations','fault_sequences'],'every database the simulated histories produce, any buffer size (one pass or many, either verify algorithm), any load factor, block size and item count, calls that fail midway',
 'The tests pass a progress function that ignores its arguments.',
 [K,VI,V],[('work counters of multi-pass rekey and verify','rekey, verify_normal, verify_fast, visit')],(),['arguments of the progress callback'])
p('C24','The command line tool does what the library does and says so',
 'The commands recover, rekey, verify and visit of the tool leave the files exactly as the library functions of the same name would, crashes and I/O errors included. The exit status is zero exactly when the command succeeded; every failure (unknown command, missing or malformed argument, I/O error, damaged file) ends with a nonzero status and a message, never with a crash or a hang. What verify, visit, info and the progress lines print is true of the files. Help, info, visit, verify and rejected command lines change, create and remove no file. As an exception info names a file it cannot read in its output and still ends with status zero. The helper thread that measures time neither outlives the command nor keeps a processor busy.',
 ['inputs','configurations','fault_sequences','crash_points'],'any command line made of the documented commands and options in long, short, positional and joined form, or malformed; any database, damaged or interrupted; I/O errors, interruptions and crashes during the command, slow disks',
 'No test runs the tool.',
 ['tools/nudb.cpp','include/nudb/_experimental/util.hpp','include/nudb/_experimental/basic_seconds_clock.hpp'],[('argument parsing, exit status, helper clock thread','admin_tool, basic_seconds_clock, seconds_clock_manager')],(),['exit status, standard output and error, files, threads of one process'])
with open('properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P))
