#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only because JSONL is unpleasant to edit)."""
import json, os
D='internal/infra/delta/'; I='internal/infra/index/'; R='internal/infra/recdb/'; H='internal/helpers/'; M='internal/domain/'; A='internal/api/shard/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Delta storage: the last operation recorded for a pair is what is read back',
 'For any sequence of additions, flushes and close/reopen cycles, looking up a user-item pair in the delta storage returns exactly the last operation added for that pair. Pairs that were never added are reported as absent.',
 ['inputs','histories'],'every history of add/flush/reopen steps with arbitrary 64-bit user and item ids and both operations, starting from an empty file or from a file holding earlier entries',
 'Tests look up three fixed pairs, each once, in histories without a flush in the middle; a lookup after add-flush-add of the same user is never made.',
 [D+'storage.go',D+'storagefactory.go',M+'deltastorage.go'],[('Add','replaces a pending operation of the pair or appends one'),('Get','scans pending operations, then flushed ones, from the newest'),('Flush/Open','write and reload the operations in order')],
 ['domain.DeltaStorage.Get'],[('newDelta','operations not flushed yet',D+'storage.go'),('deltaCache','operations in the file',D+'storage.go')])
p('C02','Delta storage: counts and predicted file size are exact',
 'At every moment the delta storage reports the number of distinct users it holds operations for and the number of operation records it holds, where adding a pair again before it is flushed replaces its pending record instead of adding another. After a flush or close the predicted file size equals the real length of the file and the header states exactly the number of records that follow it.',
 ['inputs','histories'],'every history of add/flush/close/reopen steps with arbitrary ids and operations',
 'Tests compare the counts in three fixed histories without flushes in between; GetFileSize is never called.',
 [D+'storage.go',D+'storagefactory.go'],[('totalItemCount','maintained by Add and Open'),('GetUserCount','counts pending users not yet in the flushed set'),('flushHeader','writes the count')],
 ['domain.DeltaStorage.GetUserCount','GetTotalItemCount','GetFileSize','file bytes'])
p('C03','Delta storage: no flushed operation is lost and none invented by a crash',
 'If the process dies at any instant, including in the middle of a write, reopening the delta file with recovery succeeds. For every pair the recovered storage then holds an operation at least as recent as the last one flushed successfully, and it holds nothing for pairs that were never added.',
 ['crash_points','histories','inputs'],'every crash point (between and inside writes, keeping any prefix of the interrupted write) of every history of open/add/flush/close steps',
 'No test interrupts a session; recovery tests use hand-made files.',
 [D+'storage.go',D+'storagefactory.go',D+'protocol.go'],[('lock byte','set when opened, cleared as the last write of Close'),('append-only entries','entries are appended at the end and carry a checksum'),('OpenMaybeRecover','recovers locked or truncated files')],
 ['domain.DeltaStorageFactory.OpenMaybeRecover'])
p('C04','Delta recovery keeps exactly the intact records, in order',
 'Recovering a delta file with any contents yields a well-formed, unlocked file of the current version whose records are exactly the complete records of the input that carry a known operation and a correct checksum, in their original order, and whose header counts them. If the magic number or the header is damaged or cut short the result is a well-formed empty file; recovering a recovered file changes nothing.',
 ['inputs'],'every byte string as file content (arbitrary prefix, header and record bytes, any truncation)',
 'Tests recover six hand-made files with at most two records.',
 [D+'protocol.go',D+'storagefactory.go'],[('RecoverTo','copies the valid entries and patches the count'),('Recover','replaces the content of the file and truncates it')],
 ['delta.Protocol.RecoverTo','domain.DeltaStorageFactory.Recover'])
p('C05','Delta recovery can itself be interrupted without losing data',
 'If the process dies at any instant while a delta file is being recovered, recovering it again succeeds and yields, for every pair, the same last operation that an uninterrupted recovery would have yielded. An interrupted recovery never leaves a file that opens as clean with other contents.',
 ['crash_points','inputs'],'every crash point inside recovery (keeping any prefix of the interrupted write), for files holding valid and damaged records',
 'Nothing in the tests interrupts recovery.',
 [D+'storagefactory.go',D+'protocol.go'],[('Recover','rewrites the file in place from a recovered copy')],
 ['domain.DeltaStorageFactory.OpenMaybeRecover'])
p('C06','Delta file is marked dirty from open to close, and only then',
 'From the moment opening a delta file succeeds until closing it succeeds, the file on disk is marked as in use, whatever is added or flushed in between; after a successful close it is not. Opening a file marked in use without recovery is refused and leaves the file as it was.',
 ['histories','inputs'],'every history of open/add/flush/close on empty and non-empty files',
 'Tests look at the flag once after open and once after close of an empty file.',
 [D+'storage.go',D+'storagefactory.go',D+'protocol.go'],[('WriteLocked','sets/clears the lock byte'),('flushHeader','rewrites the header as locked')],
 ['delta.Protocol.IsLocked','file bytes'])
p('C07','Delta records round-trip and any altered byte is detected',
 'Writing a record (or header) of a delta file and reading it back returns the same fields and consumes exactly the bytes written, which have the documented big-endian layout. Changing any single byte of a written record makes its checksum invalid, while an unaltered record always validates.',
 ['inputs'],'every operation byte, 64-bit user and item id, header field, and every single-byte change',
 'Tests encode and decode one fixed record and header.',
 [D+'protocol.go'],[('WriteEntry/ReadEntry','encode and decode'),('CalcEntryChecksum','byte sum over the fields')],
 ['delta.Protocol'])
p('C08','Opening arbitrary bytes as a delta file is safe and faithful',
 'Opening a file with arbitrary contents as delta storage (without recovery) never panics, hangs or reserves memory far beyond the size of the file: it either returns an error or a storage holding exactly the records that the header announces, as encoded in the file. A wrong magic number, a truncated header, fewer records than announced or a set in-use mark are refused; an empty file becomes a valid empty storage.',
 ['inputs'],'every byte string as file content',
 'Tests open an empty, a one-record and a locked file.',
 [D+'storagefactory.go',D+'protocol.go'],[('Open','validates prefix, header, lock, reads the announced entries')],
 ['domain.DeltaStorageFactory.Open'])
p('C09','Delta storage never reports success when its file could not be written',
 'If any operation on the underlying file fails while a delta storage is opened, flushed, recovered or closed, that call returns an error and does not panic. When a flush or close returns no error, the file contains every operation added so far.',
 ['fault_sequences','histories'],'a failure of any one file operation (read, write, seek, truncate, close) at any point of any open/add/flush/close/recover history',
 'Tests use a buffer that never fails.',
 [D+'storage.go',D+'storagefactory.go',D+'protocol.go'],[('error returns','every file operation result is checked and propagated')],
 ['domain.DeltaStorage.Flush','Close','domain.DeltaStorageFactory'])
p('C10','Index storage behaves as a map that survives close and reopen',
 'For any sequence of put, remove, get and close/reopen steps, looking up an id in the index returns the index of the last put not followed by a remove, and absence otherwise. Closing and reopening changes no answer, and the closed file announces exactly the number of ids stored.',
 ['histories','inputs'],'every history of put/remove/get/reopen with arbitrary 64-bit ids and indices',
 'Tests put at most two fixed ids and never reopen a non-empty index.',
 [I+'storage.go',I+'storagefactory.go',I+'protocol.go'],[('indices map','in-memory state'),('saveHeader/saveEntries','rewrite the file on close'),('load','reads it back')],
 ['domain.IndexStorage'])
p('C11','A crash never yields a silently wrong index',
 'If the process dies at any instant between opening an index file and the end of closing it, including in the middle of a write, or if closing fails, the next open either refuses the file as broken or yields exactly the contents of the last completed close or of the close under way or failed. It never succeeds with other contents.',
 ['crash_points','histories','inputs'],'every crash point (keeping any prefix of the interrupted write) of every open/put/remove/close history over empty and non-empty index files',
 'No test interrupts a session.',
 [I+'storage.go',I+'storagefactory.go',I+'protocol.go'],[('lock byte','set on open; cleared by the last write of Close')],
 ['domain.IndexStorageFactory.Open'])
p('C12','Opening arbitrary bytes as an index is safe and faithful',
 'Opening a file with arbitrary contents as an index never panics, hangs or reserves memory far beyond the size of the file: it either returns an error or an index holding exactly the entries announced and encoded in the file. A wrong magic number, a truncated header, missing entries or a set in-use mark are refused, an empty file becomes a valid empty index, and a successful open leaves the file marked in use.',
 ['inputs'],'every byte string as file content',
 'Tests open only empty files and files they just closed.',
 [I+'storagefactory.go',I+'storage.go',I+'protocol.go'],[('load/create','validate and read, or initialise')],
 ['domain.IndexStorageFactory.Open'])
p('C13','Index storage reports every file failure and releases its file',
 'If any operation on the underlying file fails while an index is opened or closed, that call returns an error and does not panic, and the file has been released. When close returns no error, the file has been released and reopening yields exactly the stored entries.',
 ['fault_sequences','histories'],'a failure of any one file operation at any point of open/put/close histories',
 'Tests use a buffer that never fails and no closer.',
 [I+'storage.go',I+'storagefactory.go'],[('error returns','every result checked; closer closed on error paths')],
 ['domain.IndexStorage.Close','domain.IndexStorageFactory.Open'])
p('C14','Profile database entries round-trip within their capacity',
 'Writing a profile entry whose data fits its capacity and reading it back returns the same user, likes, dislikes, deletion mark and capacity. The write occupies and the read consumes exactly the capacity, the unused tail is zero, and the bytes have the documented big-endian layout.',
 ['inputs'],'every profile (arbitrary ids) with any number of likes and dislikes that fits the capacity, every capacity and deletion mark, several entries in a row',
 'Tests encode and decode one fixed profile at one capacity.',
 [R+'protocol.go',R+'likeprotocol.go',H+'io.go'],[('WriteEntry/ReadEntry','entry header, data, zero padding'),('WriteEntryData/ReadEntryData','profile encoding')],
 ['recdb.Protocol'])
p('C15','Writing an entry never spills over its capacity',
 'Writing an entry writes exactly as many bytes as its capacity or fails; an entry whose data does not fit its capacity is rejected with an error before anything is written. On success the reported number of bytes is the number actually written.',
 ['inputs'],'every profile size and every capacity, fitting or not',
 'Tests only write entries that fit.',
 [R+'protocol.go',R+'likeprotocol.go'],[('WriteEntry','compares the data size with the capacity')],
 ['recdb.Protocol.WriteEntry'])
p('C16','Reading an entry from arbitrary bytes is safe and bounded',
 'Reading an entry from arbitrary bytes never panics or hangs and never reserves memory beyond a small multiple of the capacity the entry itself announces. It succeeds only if the encoded profile fits that capacity and all of the capacity is present, and then it consumes exactly that many bytes and returns the encoded values.',
 ['inputs'],'every byte string as input, including inconsistent capacities and counts and every truncation',
 'Tests read one valid entry and one whose capacity is slightly too small.',
 [R+'protocol.go',R+'likeprotocol.go',H+'io.go'],[('ReadEntryData','checks sizes against the capacity'),('SkipReading','skips the tail')],
 ['recdb.Protocol.ReadEntry'])
p('C17','Predicted entry sizes are exact and predicted capacities sufficient',
 'The predicted entry size is exactly the number of bytes the entry needs when serialised. The predicted capacity is never smaller than that size nor than the documented minimum, leaves at most half of the size as slack above that minimum, and does not decrease when items are added.',
 ['inputs'],'every number of likes and dislikes up to the stated bound',
 'Tests check a couple of fixed sizes.',
 [R+'protocol.go',R+'likeprotocol.go'],[('PredictDataSize/PredictEntrySize/PredictEntryCapacity','size arithmetic')],
 ['recdb.Protocol.PredictEntrySize','PredictEntryCapacity'])
p('C18','The database iterator visits every entry exactly once, in file order',
 'Iterating a profile database returns exactly the entries announced by its header, in file order and with their stored contents, then reports that there is no next one and refuses to go on. Rewinding at any point restarts from the first entry, and iteration alone never modifies the file; a database marked in use or with a wrong magic number is refused.',
 ['inputs','histories'],'every database of entries with arbitrary contents and differing capacities, and every sequence of next/rewind steps',
 'Tests use databases with at most one entry.',
 [R+'iterator.go',R+'protocol.go'],[('Next','reads through a buffered reader'),('Rewind','seeks to the first entry and drops the buffer')],
 ['recdb.Iterator'])
p('C19','Rewriting the previous entry touches that entry only',
 'After any number of iteration steps, rewriting the previously returned entry replaces exactly the bytes of that entry; every other byte of the file is unchanged and iteration continues with the entry that follows. If the capacity differs, or no entry was read, the call fails and the file is unchanged.',
 ['inputs','histories'],'every position in databases with several entries of differing capacities, with arbitrary new contents, interleaved with next/rewind steps',
 'The only test has a single entry, so the end of the file and the end of the entry coincide.',
 [R+'iterator.go',R+'protocol.go'],[('SetPrevious','seeks back by the capacity and writes')],
 ['recdb.Iterator.SetPrevious','file bytes'])
p('C20','File headers and magic numbers round-trip in all three formats',
 'For the delta, index and profile database formats, writing the magic number and a header and reading them back returns the same fields, consumes exactly the bytes written, and follows the documented big-endian layout. A magic number that differs in any byte, or is cut short, is rejected, and creating a profile database yields a file that iterates as an empty, unlocked database.',
 ['inputs'],'every header field value and every prefix content or truncation',
 'Tests use one header per format and one wrong prefix.',
 [D+'protocol.go',I+'protocol.go',R+'protocol.go'],[('WritePrefix/ReadPrefix','magic number'),('WriteHeader/ReadHeader','header codec'),('Create','initialises an empty database')],
 ['Protocol of each format'])
p('C21','Lock marks can be set and read without disturbing the file',
 'For the delta, index and profile database formats, setting or clearing the lock mark changes no byte other than the mark itself and keeps the file position. Reading it returns what was last set (any non-zero mark counts as set) and changes neither the bytes nor the position.',
 ['inputs'],'every file content, file position and lock value',
 'Tests lock and unlock one fixed header at position zero.',
 [D+'protocol.go',I+'protocol.go',R+'protocol.go'],[('WriteLocked/IsLocked','seek, access one byte, seek back')],
 ['Protocol.WriteLocked','Protocol.IsLocked'])
p('C22','A profile is always a pair of disjoint sorted sets reflecting the last action',
 'After any sequence of like, unlike, dislike, undislike and remove steps, querying an item of a profile reports liked, disliked or unknown according to the last step that affected that item. The liked and the disliked lists are strictly ascending and have no item in common.',
 ['histories','inputs'],'every sequence of steps with arbitrary 64-bit item ids, from an empty or any valid profile',
 'Tests run two short fixed sequences over two ids.',
 [M+'profile.go',H+'arrays.go'],[('PutSavingOrder/RemoveSavingOrder/BinaryIndexOf','ordered set on slices'),('Like/Dislike','remove the item from the other list')],
 ['domain.Profile.QualifyItem','Profile.Likes','Profile.Dislikes'])
p('C23','Profile similarity is a bounded, symmetric, weighted Jaccard measure',
 'For all profiles and every dislike factor from 0 to 1 the similarity lies between 0 and 100 and is never NaN, is the same in both directions, is 100 for identical profiles with at least one like and 0 for profiles with nothing in common. With factor 1 it is 100 times the mean of the Jaccard similarities of likes and of dislikes weighted by the sizes of the unions, with factor 0 dislikes do not count, and in between the result lies between the two similarities. Computing it changes neither profile.',
 ['inputs'],'every pair of valid profiles up to the stated sizes and every float32 factor in [0,1]',
 'Tests compare five fixed pairs, all with factor 1 and none of them empty.',
 [M+'profile.go',H+'arrays.go'],[('computeSimilarityBetweenSets','Jaccard by binary search'),('ComputeSimilarity','weighted mean')],
 ['domain.Profile.ComputeSimilarity'])
p('C24','Sorted-array helpers keep order and find exactly what is there',
 'On ascending arrays, binary search finds an element if and only if it is present and the closest-element search returns an element at minimal distance. Inserting keeps the array ascending and adds exactly that value (or nothing when put finds it present), removing deletes exactly the chosen element, and no other element is lost, duplicated or changed. In any array, linear search finds the first occurrence or none.',
 ['inputs'],'every array (ascending where required) up to the stated length, every value and index',
 'Tests use arrays of up to six fixed numbers.',
 [H+'arrays.go'],[('IndexOf','linear search'),('BinaryIndexOf/BinaryIndexOfClosest','binary search'),('Insert/InsertSavingOrder/PutSavingOrder/Remove/RemoveSavingOrder','slice editing')],
 ['helpers functions'])
p('C25','The in-memory file behaves like a file',
 'For any sequence of reads, writes, seeks and truncations, the in-memory file returns the bytes, counts, positions and end-of-file results that a regular file would, except that seeking outside the content is refused. Truncating keeps the remaining bytes, extends with zeros and moves a position beyond the new end to it; after closing every operation fails.',
 ['histories','inputs'],'every sequence of operations with arbitrary sizes, offsets and contents',
 'It is only used as a fixture; recovery in production depends on it.',
 [H+'file_buffer.go'],[('Read/Write/Seek/Truncate','offset arithmetic over a byte slice')],
 ['helpers.FileBuffer'])
p('C26','Zero filling and skipping move exactly the requested number of bytes',
 'Writing n zeros emits exactly n zero bytes, and skipping n bytes advances the reader by exactly n, whatever sizes the reader or writer accepts per call. If the stream ends or fails earlier the call reports an error together with the number of bytes really processed. Calls on different streams at the same time share no data: none changes the bytes another has read or writes.',
 ['inputs','fault_sequences','schedules'],'every n up to the stated bound (including those above the internal chunk size), every partial-transfer pattern and failure point, every interleaving of two calls',
 'No test covers these functions.',
 [H+'io.go'],[('WriteZeros/SkipReading','chunked loops')],
 ['helpers.WriteZeros','helpers.SkipReading'])
p('C27','Every action handed to the like storage is answered exactly once',
 'Processing any batch of actions answers every action of the batch exactly once, in order, on the channel its requester is waiting on, and then returns. An action of unknown type is answered with an error, and no action of any known type is.',
 ['inputs','schedules'],'every batch of actions of arbitrary types and ids, and every interleaving with the waiting requesters',
 'No test covers the like storage.',
 [R+'likestorage.go',M+'actions.go'],[('ProcessActions','type switch answering each action')],
 ['domain.LikeStorage.ProcessActions'])
p('C28','Requests to a running namespace always get an answer, even when it stops',
 'Every request issued to a started namespace that is later stopped or cancelled returns: with the storage\'s answer, or with an error if the namespace stopped first; it never panics or hangs, also while the name or the settings are changed, which are then the ones given. Stopping or cancelling ends the worker, which then closes the like, delta and index storages exactly once and touches none of them afterwards.',
 ['schedules','histories'],'every interleaving of concurrent requests of every kind with stop and context cancellation',
 'No test covers the namespace; the outcome depends on the schedule.',
 [M+'likenamespace.go',M+'actions.go'],[('action channel','requests queue here'),('Start','worker loop and deferred closes'),('stopped channel','ends the waiting of requests the worker will not answer')],
 ['likeNamespace methods','Close calls on the storages'])
p('C29','Starting a namespace opens its own files and leaks nothing on failure',
 'Starting a namespace opens the delta, index and profile files named after the namespace inside the configured data directory and nowhere else. If any step fails, start returns an error and every file opened so far has been closed; an index file left broken by a crash does not prevent the start but is reset to an empty index. Profiles that an existing file holds are handed to the profile storage unchanged, and created files can be opened again by their owner. If the process dies at any moment while a namespace starts or closes its storages, the next start succeeds and no flushed operation is lost.',
 ['fault_sequences','inputs'],'every failure or crash point of the start sequence, missing or broken files, every valid namespace name and data directory',
 'No test covers starting a namespace.',
 [M+'likenamespace.go',M+'namespaceservice.go',I+'storage.go',I+'storagefactory.go'],[('openMaybeRecover*/openMaybeReset*','open files, clean up on errors'),('forgeNamespace','passes the data directory on')],
 ['likeNamespace.Start','file system operations'])
p('C30','The namespace registry is a faithful map with unique names',
 'For any sequence of create, update and delete requests, the registered namespaces are exactly those implied by the requests that succeeded, each retrievable under its current name with the settings last given, and no two share a name. Creating or renaming to a taken name, and updating or deleting an unknown name, fail without changing the registry; every request returns. A limit of 0 stands for the default of 1000.',
 ['histories','inputs'],'every sequence of create/update/delete/get requests with arbitrary names and settings',
 'No test covers the service.',
 [M+'namespaceservice.go',M+'likenamespace.go',H+'arrays.go'],[('CreateNamespace/UpdateNamespace/DeleteNamespace','check the name, change the list, save'),('Rename','changes the name')],
 ['domain.NamespaceService'])
p('C31','Concurrent namespace requests behave as if executed one at a time',
 'When create, update, delete and read requests run concurrently, the outcome equals that of executing them in some order: in particular two namespaces never end up with the same name and no successful creation or deletion is lost. There are no data races on the registry.',
 ['schedules','inputs'],'every interleaving of concurrent requests (the HTTP server runs each on its own goroutine)',
 'No test covers the service, and tests cannot enumerate interleavings.',
 [M+'namespaceservice.go',A+'endpoints/namespaceendpoint.go'],[('registry lock','serialises access to the namespace list')],
 ['domain.NamespaceService'])
p('C32','A registry change is acknowledged only after it was saved, or undone',
 'Create, update and delete return success only after the registry file in the configured data directory was rewritten with exactly one record per registered namespace. If saving fails the request returns an error, and the registry and the saved registry file are as they were before the request, so that retrying is possible.',
 ['fault_sequences','histories'],'a failing save at any point of any request history, every data directory setting',
 'No test covers saving.',
 [M+'namespaceservice.go'],[('SaveNamespaces','encodes and writes namespaces.json')],
 ['domain.NamespaceService','file system operations'])
p('C33','The REST API reaches the namespace named in the URL',
 'A GET or PUT on the URL of a registered namespace reads or updates exactly that namespace and answers 200 with its current name, type and limit; unknown names answer 404 and malformed ones 400. POST answers 201 and registers the namespace or answers 400 and changes nothing, and GET on the collection lists every registered namespace once; every request is answered exactly once. A body is accepted exactly if it has a lower-case alphanumeric name starting with a letter, type like, a limit of at least 1 (absent or 0 meaning 1000) and a factor above 0 and at most 1.',
 ['inputs','histories'],'every request path and body content over every registry state within the stated bounds',
 'No test covers the HTTP layer.',
 [A+'endpoints/namespaceendpoint.go',A+'dto/namespacecreaterequest.go',A+'dto/namespaceupdaterequest.go',A+'dto/namespaceresponse.go',A+'endpoints/helpers.go'],[('RegisterRoutes','maps routes to handlers'),('handlers','parse, validate, call the service, answer')],
 ['HTTP status and body'])
p('C34','Accepted namespace names are safe file names; only known types pass',
 'A namespace name is accepted if and only if it starts with an ASCII letter and continues with ASCII letters, digits, underscores or hyphens, so it can never contain a path separator, dot or control character. A namespace type is accepted if and only if it is the like type, and parsed values are returned unchanged.',
 ['inputs'],'every byte string up to the stated length',
 'No test covers the value objects.',
 [M+'valueobjects/namespacename.go',M+'valueobjects/namespacetype.go'],[('ParseNamespaceName','regular expression'),('ParseNamespaceType','comparison')],
 ['valueobjects.ParseNamespaceName','valueobjects.ParseNamespaceType'])
p('C35','The application stops when told to and reports when it cannot listen',
 'Running the application returns an error if the HTTP server cannot listen, without waiting for a signal. On SIGINT or SIGTERM it stops accepting, lets running requests finish within the shutdown timeout and returns, with an error only if shutting down or serving failed. It never hangs and a signal delivered at any time after start-up is not lost.',
 ['schedules','fault_sequences'],'every interleaving of listen failure, signal delivery and shutdown',
 'No test covers the application.',
 [A+'application.go'],[('Run','listener goroutine, signal wait, shutdown with timeout')],
 ['shard.Application.Run'])
p('C36','Configuration comes from the environment with sane fallbacks',
 'The host and port are taken from the environment when set and valid; an unset host, or an unset, non-numeric or negative port falls back to the given defaults, or to the built-in ones when there are none. The listening address is always the host and the decimal port joined by a colon.',
 ['inputs','configurations'],'every value of the environment variables up to the stated length and every default',
 'No test covers the configuration.',
 [A+'config.go'],[('NewConfigFromEnv','reads REC_HOST and REC_PORT'),('GetHostPort','joins them')],
 ['shard.NewConfigFromEnv','shard.Config.GetHostPort'])
p('C37','Registered namespaces survive a restart',
 'After any successful create, update or delete, a new service started on the same data directory and loading its registry holds the same namespaces with the same names, types and settings. Loading a missing or malformed registry file (including invalid or duplicate names and unknown types) returns an error and leaves the registry empty. If the process dies at any moment of a request, the registry loads as it was before or after the request.',
 ['histories','inputs','crash_points'],'every history of requests followed by a restart, every crash point of a request',
 'No test covers saving or loading.',
 [M+'namespaceservice.go',M+'likenamespace.go'],[('SaveNamespaces/LoadNamespaces','encode and decode the list')],
 ['domain.NamespaceService.LoadNamespaces'])
p('C38','The application serves its registry at the configured address',
 'A running application listens on exactly the configured host and port and serves the REST API over the namespace service it was given: a namespace registered through the service is visible through the API and one created through the API is visible in the service. Paths outside the API answer 404.',
 ['inputs','configurations'],'every host and port up to the stated length, and every namespace name up to the stated length',
 'No test covers the application.',
 [A+'application.go',A+'endpoints/namespaceendpoint.go','main.go'],[('NewApplication','wires configuration, service and routes'),('Run','serves the router at the configured address')],
 ['shard.Application','HTTP status and body'])
p('C39','A restarted program continues where the last run stopped',
 'The program reads its settings from the .env file of its working directory and serves the API at the configured address. Every namespace registered, updated or renamed through the API in one run is served with the same settings by every later run, however the earlier ones ended (SIGTERM, SIGINT, or killed between requests), and also when the files of some namespace cannot be opened. Without a usable registry the program starts with no namespaces and can register new ones. SIGINT and SIGTERM end it with exit code 0; without settings, or when it cannot listen, it ends by itself with another exit code. All files it makes lie in the configured data directory.',
 ['histories','configurations','fault_sequences'],'every history of up to the stated number of runs with one request each, every way a run ends, every setting of the data directory considered, and every kind of unusable registry considered',
 'No test runs the program.',
 ['main.go',A+'application.go',A+'config.go',M+'namespaceservice.go'],[('main/runShard','wire configuration, registry, namespaces and application'),('Run','serves until a signal arrives')],
 ['exit code','HTTP status and body','files'])
p('C40','Files opened by path are created once, kept otherwise, and released',
 'Opening an index or a profile database by its path makes a valid empty one if there is no file and never another file; an existing profile database is handed out from its beginning, unchanged. An index file is opened exactly if it is valid, complete and not in use; what is stored in it is found when it is opened by the same path again. Whenever opening or closing fails, for a missing directory, a broken file or a full disk, an error is returned and no file stays open, and later opens (also after the process died at any moment) never yield entries that were not stored.',
 ['inputs','fault_sequences','crash_points','histories'],'every kind of existing file considered (with arbitrary bytes up to the stated length), every amount of free space, and every crash point of a session',
 'No test opens a file by its path.',
 ['internal/infra/index/storagefactory.go','internal/infra/index/storage.go','internal/infra/recdb/protocol.go'],[('OpenFile','opens or creates the index file'),('OpenOrCreateFile','opens or creates the database file')],
 ['index.NewStorageFactory().OpenFile','recdb.NewProtocol(...).OpenOrCreateFile','files and open descriptors'])
p('C41','A namespace passes every request to its storage and returns its own answer',
 'Every request to a started namespace (delete profile, get profile, like, dislike, delete item, similar profiles, recommended items) reaches its like storage exactly once, as an action of that type with exactly the ids given, and nothing else does. The requests of one client reach it in the order they were issued, and never two batches at a time. The requester gets exactly what the storage answered to its own action: the profile (or none), the similar profiles, the items, or the error.',
 ['schedules','inputs','histories'],'every type, every id and answer, and every interleaving of the stated number of concurrent clients',
 'No test covers the namespace.',
 [M+'likenamespace.go',M+'actions.go'],[('enqueue/enqueueAndWait','queue an action and wait for its answer'),('Start','the worker that hands batches to the storage')],
 ['requests of a like namespace','actions given to domain.LikeStorage.ProcessActions'])
p('C42','A refused request body names exactly the fields at fault',
 'A POST, or a PUT on a registered namespace, whose body is a JSON object with fields of the right types, some of them missing, malformed or out of range, is answered 400 with the error "validation" and a list that names every such field once, with a message, and no other field; the registry is unchanged. (A name that is malformed only by starting with a digit may go unnamed while another field is at fault.)',
 ['inputs'],'every combination of present, missing and arbitrary field values, names up to the stated length',
 'No test covers the endpoints.',
 ['internal/api/shard/endpoints/helpers.go','internal/api/shard/dto/validationerror.go','internal/api/shard/dto/namespacecreaterequest.go','internal/api/shard/dto/namespaceupdaterequest.go'],[('AbortWithBindingErrors/AbortWithValidationError','turn errors into the answer'),('ToDomain','checks what the binding does not')],
 ['HTTP status and body of POST and PUT'])
p('C43','Storages of different files that work at the same time stay apart',
 'Two delta storages, two indices or two profile databases on different files that are opened (also recovered), read, changed, flushed, rewritten, iterated and closed at the same time, each by one goroutine, through the same factory or protocol object, behave exactly as each would alone: every operation succeeds with the data of its own file, the files end up with exactly the own data, and no memory is accessed by both without synchronisation.',
 ['schedules','inputs'],'every interleaving within the stated preemption bound, every content of the files and every operand considered',
 'No test runs two storages at a time.',
 ['internal/infra/delta/storage.go','internal/infra/delta/storagefactory.go','internal/infra/delta/protocol.go','internal/infra/index/storage.go','internal/infra/index/protocol.go','internal/infra/recdb/protocol.go','internal/infra/recdb/likeprotocol.go','internal/infra/recdb/iterator.go','internal/helpers/io.go'],[('storage factories and protocols','shared by all namespaces, each of which has its own worker')],
 ['answers of the storages','contents of the files'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
