#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (single source for the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
M='tracker/storage/map/'
p('C01','Stored swarm follows the announce history',
  'After any sequence of announces, stops and expiry passes over any info-hashes and peer ids, the peers stored for an info-hash are exactly those whose latest announce has been neither stopped nor expired, each with the address, port, completeness and time of that latest announce. An operation on one (info-hash, peer id) pair never changes what is stored for any other pair.',
  ['histories','inputs'],'every bounded sequence of save / drop / expiry operations with arbitrary hashes, peer ids, addresses, ports, completeness and clock values',
  'TestSaveDrop saves and drops one fixed peer under one fixed hash; no test has two hashes, two peers, an update, an address change or a sequence.',
  [M+'peer.go',M+'memory.go'],[('Save / Drop',M+'peer.go'),('delete / trim',M+'memory.go')],
  [('hashmap','info-hash to swarm',M+'memory.go')],['PeerList','PeerListBytes','HashStats'])
p('C02','Swarm counters equal the stored peers',
  'At every quiescent point the complete and incomplete counts reported for an info-hash equal the number of complete and incomplete peers stored for it, after any history of announces (including peers that switch completeness in either direction), stops, expiry passes and backup restores. This holds for swarms of any size: counts never wrap around.',
  ['histories','inputs'],'every bounded operation sequence from an empty database and every single operation from an arbitrary consistent swarm of arbitrary counter values',
  'No test reads the counters after an update, a stop or an expiry pass; swarms above 65535 peers are created in TestTrim but never counted.',
  [M+'peer.go',M+'hash.go',M+'memory.go',M+'encode_binary.go'],[('counter updates under the swarm lock',M+'peer.go'),('HashStats',M+'hash.go')],
  [('Complete / Incomplete','per-swarm counters',M+'memory.go')],['HashStats'])
p('C03','Peer lists are genuine, bounded and exact',
  'A peer list returned for an info-hash contains only peers currently stored for that hash, each at most once and with its exact address and port in network byte order (IPv4 and IPv6 kept apart in compact form), and contains exactly min(requested number, swarm size) peers. It is empty when the hash is unknown or no peers are requested, and never contains bytes left over from an earlier response.',
  ['inputs','histories'],'every requested number and every swarm of up to 3 peers with arbitrary addresses and ports, with pooled buffers previously filled by earlier responses',
  'TestAnnounce checks one- and two-peer swarms with fixed numwant 10; requests for zero peers, fewer peers than stored, unknown hashes and reused buffers are never exercised.',
  [M+'hash.go','pools/pools.go'],[('PeerList / PeerListBytes',M+'hash.go'),('peer list buffer pools','pools/pools.go')],
  [('Peerlists4/Peerlists6','recycled response buffers','pools/pools.go')],['PeerList','PeerListBytes'])
p('C04','Expiry removes exactly the stale peers',
  'An expiry pass removes every peer whose last announce is older than the configured maximum age and no other peer, whatever the clock, ages and swarm layout. Info-hashes left without peers are removed, info-hashes with remaining peers keep those peers unchanged, and repeated passes at the same instant change nothing more.',
  ['inputs','histories'],'every clock value, expiry setting and set of up to 2 hashes x 2 peers with arbitrary last-seen times',
  'TestTrim only runs trim with expiry 0 and asserts nothing about what is left.',
  [M+'memory.go'],[('trim',M+'memory.go')],[('LastSeen','time of the last announce','tracker/storage/types.go')],['HashStats','PeerList','Hashes'])
p('C05','Global peer and IP statistics match the database',
  'At every quiescent point the published totals of seeds, leeches and distinct peer addresses equal the number of complete peers, incomplete peers and distinct addresses actually stored, after any history of announces (including address and completeness changes), stops and expiry passes, and right after a restart from a backup.',
  ['histories','inputs'],'every bounded operation sequence with arbitrary addresses (equal or different) and completeness',
  'No test reads the statistics; the address multiset is only correct if every increment is matched on every path.',
  [M+'peer.go',M+'expvar.go','tracker/stats/stats_slow.go','tracker/stats/stats.go'],[('IPStats Inc/Remove','tracker/stats/stats_slow.go'),('SyncExpvars',M+'expvar.go')],
  [('Seeds/Leeches/IPStats','global totals','tracker/stats/stats.go')],['stats.Seeds','stats.Leeches','stats.IPStats.Total'])
p('C06','Backup encoding round-trips the whole database',
  'Decoding the encoded form of any database yields the same info-hashes, and for each the same peers with identical completeness, address (IPv4, IPv6 or IPv4-mapped), port and last-seen time, and the matching per-swarm counts. The reported numbers of restored peers and hashes equal what was restored.',
  ['inputs'],'every database of up to 2 hashes x 2 peers with arbitrary contents',
  'TestEncodeDecodeBinary round-trips exactly one IPv4 peer.',
  [M+'encode_binary.go'],[('encodeBinary / decodeBinary',M+'encode_binary.go')],(),['backup Save then Load'])
p('C07','Restoring damaged backup data never crashes',
  'Loading any byte string as a backup either restores a database whose counters match its peers or reports an error; it never crashes the process and never allocates memory out of proportion to the data. A backup cut off in the middle of a record is reported as an error.',
  ['inputs','crash_points'],'every byte string up to the stated length, and every truncation of a valid backup',
  'Tests only decode data produced by the encoder.',
  [M+'encode_binary.go',M+'backup_file.go'],[('decodeBinary',M+'encode_binary.go')],(),['backup Load'])
p('C08','A crash while saving never destroys the previous backup',
  'If the process dies at any point while the peer database or the UDP connection database is being written to its file, or if any file operation fails, the file at the configured path still holds either the complete previous contents or the complete new contents. A failed save is reported as an error.',
  ['crash_points','fault_sequences'],'every crash point (including inside a write) and every single failing file operation during a save',
  'Tests write once and read back; no test interrupts a write or makes one fail.',
  [M+'backup_file.go','tracker/udp/conndb.go'],[('writeFile',M+'backup_file.go'),('writeToFile','tracker/udp/conndb.go')],(),['file at the backup path'])
p('C09','Concurrent announces, stops and expiry lose nothing',
  'When announces, stops and expiry passes run concurrently, the resulting database equals the result of running them in some sequential order: an acknowledged announce is never lost, no peer is counted twice, and the swarm counters and global statistics match the stored peers. No interleaving deadlocks or lets a recycled peer record be shared by two entries.',
  ['schedules'],'every interleaving (at lock granularity) of two operations, each an announce, stop or expiry pass, on equal or different hashes and peers',
  'The only concurrent code in the test suite is benchmarks, which assert nothing.',
  [M+'peer.go',M+'memory.go','pools/pools.go'],[('database and swarm mutexes',M+'memory.go'),('Save',M+'peer.go')],
  [('hashmap, PeerMap, peer pool','shared state',M+'memory.go')],['HashStats','PeerList'])
p('C10','Concurrent readers see only whole, real peers',
  'A peer list, count or backup taken while announces, stops and expiry passes run concurrently never combines fields of two different announces into one peer, never contains a peer that was not stored at some point during the call, and a backup taken then always decodes. No two accesses to stored peer data race.',
  ['schedules'],'every interleaving of one reader (peer list, compact list, counts, backup) with one writer at lock granularity, with happens-before tracking of every memory access',
  'No test runs a reader concurrently with a writer.',
  [M+'peer.go',M+'hash.go',M+'encode_binary.go'],[('swarm RWMutex',M+'memory.go')],(),['PeerList','PeerListBytes','encodeBinary'])
p('C11','Postgres backup saves and restores any database safely',
  'Saving any database, including an empty one, to Postgres issues exactly one insert of the complete encoded database and leaves no query result open; loading restores the most recent row, treats an empty table as an empty database, waits at most once for a fresher row, and reports every database error to the caller. Neither ever crashes, whatever the stored bytes or errors.',
  ['inputs','fault_sequences'],'every database of up to 2 peers, every stored row up to the stated length, every error outcome of each SQL call',
  'The Postgres backup has no tests at all.',
  [M+'backup_pg.go'],[('PgBackup Save/Load/trim',M+'backup_pg.go')],(),['database/sql calls'])
p('C12','UDP requests need a connection id issued to their address',
  'With connection validation enabled, an announce or scrape datagram changes the peer database or obtains peer or swarm data only if its connection id is the one most recently issued to exactly that source address and port; otherwise the only effect is one error reply. A request carrying the issued id is accepted, and every connect is answered with the id that is then accepted.',
  ['histories','inputs'],'every bounded sequence of connects and requests from arbitrary addresses, ports and ids',
  'Tests use one address with the right id; the one bad-id test fails at baseline.',
  ['tracker/udp/udptracker.go','tracker/udp/connect.go','tracker/udp/conndb.go'],[('process','tracker/udp/udptracker.go'),('conndb.check','tracker/udp/conndb.go')],
  [('connectionMap','address:port to issued id','tracker/udp/conndb.go')],['UDP replies','peer database'])
p('C13','UDP connection ids live until they expire and survive restart',
  'A connection trim removes exactly the ids older than the configured expiry and keeps all others, a new connect from the same address and port replaces its id, and the reported number of connections equals the number of stored ids. Encoding and decoding the connection database (in either of its formats) preserves every address, port, id and timestamp; damaged data yields an error or a valid database, never a crash.',
  ['inputs','histories'],'every clock value, expiry, and set of up to 3 connections with arbitrary IPv4/IPv6 addresses, ports, ids and times; every byte string up to the stated length',
  'Tests trim one already expired entry and round-trip two fixed entries.',
  ['tracker/udp/conndb.go'],[('add/check/trim/marshallBinary/gobEncode','tracker/udp/conndb.go')],
  [('connectionMap','issued ids','tracker/udp/conndb.go')],['conndb.check','Connections()'])
p('C14','Every UDP datagram gets at most one matching reply',
  'For every datagram the server stays up and sends at most one reply, to the sender; the reply carries the request\'s transaction id and either the request\'s action or the error action (a heartbeat gets its fixed one-byte reply). Datagrams shorter than a connect request get no reply, and datagrams with an unknown action get an error.',
  ['inputs'],'every datagram content for all lengths in the stated set up to a full scrape, from IPv4, IPv4-mapped and IPv6 senders',
  'Tests send seven well-formed datagrams and two malformed ones.',
  ['tracker/udp/udptracker.go','tracker/udp/error.go','tracker/udp/announce.go','tracker/udp/scrape.go'],[('process','tracker/udp/udptracker.go')],(),['UDP replies'])
p('C15','UDP messages follow the BEP 15 wire layout',
  'Every UDP tracker message (connect, announce, scrape and error, requests and responses) is encoded as exactly the big-endian field sequence of BEP 15 with no extra bytes, and decoding such bytes yields the same field values, for all field values.',
  ['inputs'],'all field values; up to 3 scrape entries, up to 12 bytes of peers / error text',
  'No unit test covers the protocol package; scrape responses are never exercised.',
  ['tracker/udp/protocol/announce.go','tracker/udp/protocol/connect.go','tracker/udp/protocol/scrape.go','tracker/udp/protocol/error.go'],[('Marshall / Unmarshall','tracker/udp/protocol/')],(),['Marshall','Unmarshall'])
p('C16','A UDP announce stores and reports the right peer',
  'An accepted UDP announce stores the datagram\'s source address with the announced port and peer id under the announced info-hash, complete exactly when the event is "completed" or nothing is left, and a "stopped" announce instead removes that peer. The reply to an announce that is not "stopped" reports the swarm\'s seeders and leechers after the update and only peers of the requester\'s address family, at most as many as wanted and allowed; port zero is refused without storing anything.',
  ['inputs'],'every field value of the announce, arbitrary source address, with up to one other peer already in the swarm',
  'Tests announce one leecher with fixed values.',
  ['tracker/udp/announce.go'],[('announce','tracker/udp/announce.go')],(),['UDP replies','peer database'])
p('C17','A UDP scrape reports each requested hash in order',
  'An accepted UDP scrape of 1 to 74 info-hashes is answered by one scrape response whose k-th 12-byte entry holds the seeders and leechers currently stored for the k-th requested hash (zero when unknown), and no extra bytes; a scrape changes nothing.',
  ['inputs'],'arbitrary hashes and swarm contents, up to 3 requested hashes plus the 73..74 boundary',
  'No test sends a scrape.',
  ['tracker/udp/scrape.go','tracker/udp/protocol/scrape.go'],[('scrape','tracker/udp/scrape.go')],(),['UDP replies'])
p('C18','HTTP requests are parsed exactly and in isolation',
  'Parsing any byte sequence never crashes; an accepted request yields exactly the method, path and percent-decoded parameters present in that request\'s own bytes, up to the supported number of parameters, plain or base64 encoded, and malformed requests or escapes (truncated or non-hexadecimal) are rejected. (A query that is empty or ends in "&", or a target holding control characters, may be rejected too.) Bytes left in the buffer by an earlier request never influence the result.',
  ['inputs','histories'],'every byte string up to the stated lengths, with arbitrary stale bytes behind it in the buffer',
  'Tests parse three requests; the fuzz target checks only one seed and no result.',
  ['tracker/http/parser.go','tracker/http/worker.go'],[('parse / unescapeFast','tracker/http/parser.go')],(),['parse result'])
p('C19','HTTP announces are validated and stored exactly',
  'An HTTP announce is stored, with exactly the given info-hash, peer id, port, client address and completeness (event completed or nothing left), only if the hash and peer id are 20 bytes, the port is 1-65535 and numwant is absent or a non-negative integer; otherwise the client gets a failure reason and nothing is stored. A "stopped" event removes exactly that peer and is merely acknowledged; any other reply reports the counts after the update and at most the wanted and allowed number of peers.',
  ['inputs'],'arbitrary hash and peer id bytes and lengths, events, port and numwant texts up to the stated lengths, flags and addresses',
  'TestAnnounce has twelve fixed valid announces and no invalid one.',
  ['tracker/http/announce.go'],[('announce','tracker/http/announce.go')],(),['HTTP reply','peer database'])
p('C20','HTTP tracker replies are well-formed bencoding',
  'Every announce, scrape and failure reply body is a single well-formed bencoded dictionary with the documented keys and correctly length-prefixed values, whatever bytes hashes, peer ids, addresses or ports contain and whatever earlier replies used the recycled encoders. Failure replies hold only a failure reason.',
  ['inputs','histories'],'arbitrary hash / peer id bytes, ports and counts; two consecutive requests sharing recycled encoders, including ones that end in an error',
  'TestAnnounce compares fixed replies; error replies and reuse after an error are not covered.',
  ['tracker/http/announce.go','tracker/http/scrape.go','tracker/http/error.go','bencoding/dictionary.go'],[('Dictionary pool','pools/pools.go')],(),['HTTP reply'])
p('C21','An HTTP scrape reports each requested hash',
  'An HTTP scrape is answered with one entry per requested info-hash, keyed by the exact hash bytes, holding the complete and incomplete counts currently stored (zero when unknown); parameters other than info_hash are ignored. A hash that is not 20 bytes, or no hash at all, yields a failure reason; a scrape changes nothing.',
  ['inputs'],'arbitrary hash bytes and lengths, up to 3 parameters, arbitrary swarm contents',
  'No test performs an HTTP scrape.',
  ['tracker/http/scrape.go','tracker/http/worker.go'],[('scrape','tracker/http/scrape.go')],(),['HTTP reply'])
p('C22','Each HTTP connection is answered once and closed',
  'Whatever a client sends, its connection is closed exactly once after handling, a request that was read is answered, an unreadable one is not, and the worker goes on to serve the next client independently of the previous one. Requests that are malformed or not GET get 400 (or a server error), unknown paths 404, /heartbeat 200, and no request ever reveals the server configuration; workers stop when the listener is closed.',
  ['inputs','histories','fault_sequences'],'two consecutive connections with arbitrary (bounded) request bytes, read errors and accept errors',
  'No test runs the HTTP worker loop.',
  ['tracker/http/worker.go','tracker/http/wrappers.go','config/embed.go'],[('work','tracker/http/worker.go')],(),['HTTP connection'])
p('C23','The forwarded client address is the last list entry',
  'In app-engine builds the client address is the last element of the "X-Forwarded-For: " header of the request itself, with or without one space after the comma; a request without the header uses the connection\'s address, and a header that is empty, unterminated or ends in a comma yields no usable address. Extracting it never crashes.',
  ['inputs'],'every header value up to the stated length',
  'TestForwarded has eight fixed headers, none ending in a comma or lacking the space.',
  ['tracker/http/forwarded_appeng.go'],[('parseForwarded','tracker/http/forwarded_appeng.go')],(),['parseForwarded result'])
p('C24','Bencoded dictionaries decode to what was written',
  'For every sequence of string, byte, integer, list and nested-dictionary writes with arbitrary keys and values (all 64-bit integers, empty and binary strings), the encoded result is one well-formed dictionary that decodes to exactly those keys and values in order. A reset encoder behaves like a new one; the generic writer produces the same encoding as the typed ones and reports unsupported types.',
  ['inputs'],'arbitrary keys and values up to the stated lengths, all int64 values, all write kinds',
  'Tests encode a handful of fixed strings and integers.',
  ['bencoding/dictionary.go','bencoding/encoding.go'],[('Dictionary','bencoding/dictionary.go')],(),['Get','GetBytes'])
p('C25','Announce intervals stay within the configured range',
  'Every successful reply to an announce that is not "stopped", UDP or HTTP, carries an interval of at least the configured base and at most base plus fuzz, for every configuration of base and fuzz (including zero fuzz) and every random draw.',
  ['inputs','configurations'],'all whole-second base and fuzz values in the stated range and all random outcomes permitted by the generator\'s contract',
  'Tests use fuzz 0 or base 0 with fuzz 1 second and never check the interval over UDP.',
  ['tracker/udp/announce.go','tracker/http/announce.go'],[('interval computation','tracker/udp/announce.go')],(),['announce reply'])
p('C26','The process id file stores and returns exact ids',
  'Reading the process id file after writing any non-negative process id returns that id, writing replaces any earlier contents, and after clearing it reading reports that it is empty. A file holding an integer reads as that integer; any other content is reported as an error with the failure marker, and a missing file is an error; nothing ever reads as a valid id by accident.',
  ['inputs','fault_sequences'],'all process ids, all file contents up to the stated length, every failing file operation',
  'Tests write one id and one garbage text.',
  ['controller/pidfile.go'],[('Read/Write/Clear','controller/pidfile.go')],(),['pid file'])
p('C27','Daemon control acts only on the recorded process',
  'Start launches and records at most one process and refuses when a process id is recorded or a tracker answers; stop signals only the recorded process, waits a bounded time for it to exit, clears the record only once it has exited, and otherwise returns an error. Errors of each step are reported and no step after a failed one is performed.',
  ['fault_sequences','histories'],'every outcome of every file, signal, spawn and heartbeat step, and every number of polls until exit',
  'The controller has no tests beyond its pid file.',
  ['controller/controller.go'],[('Start/Stop/Status/Clear','controller/controller.go')],(),['signals sent','pid file','return values'])
p('C28','Shutdown saves everything before exiting',
  'On an interrupt or terminate signal a started tracker tells its listeners to close, then saves the peer database and the UDP connections, then exits successfully; on the save signal it saves both and keeps running. A failing save never prevents the other save or the exit, a signal that arrives while a save is running is obeyed afterwards, and other signals have no effect.',
  ['histories','fault_sequences'],'every sequence of up to 3 signals and every combination of save errors, with either tracker enabled or disabled',
  'The test suite sends one SIGTERM at the end and checks nothing.',
  ['tracker/signalhandler.go','tracker/udp/udptracker.go','tracker/http/httptracker.go'],[('signalHandler','tracker/signalhandler.go')],(),['save calls','exit'])
p('C29','Periodic tasks run on every tick and never early',
  'A periodic task with a positive period runs once per period boundary, in order, never before its boundary, for any clock that does not run backwards, and no boundary is skipped even if a run takes longer than the period.',
  ['inputs','histories'],'arbitrary non-decreasing clock readings, 4 ticks, a set of periods',
  'No test covers the scheduler.',
  ['tracker/utils/runon.go'],[('RunOn','tracker/utils/runon.go')],(),['run times'])
p('C30','Configuration resolution is exact',
  'After a successful load the log level and HTTP mode are lower-cased, an "ENV:" backup path is replaced by the named variable, "~" in file paths by the home directory, and a PORT variable overrides the HTTP port; a non-integer PORT is an error and leaves the configuration not loaded. A valid log level sets exactly that level, any other falls back to warn, and the configuration counts as loaded exactly when parsing succeeded.',
  ['inputs','configurations'],'arbitrary strings up to the stated lengths for log level, mode, paths, PORT and environment values',
  'The config tests only cover file generation and the embedded cache.',
  ['config/config.go','config/loglevel.go'],[('Parse','config/config.go'),('SetLogLevel','config/config.go')],(),['Config'])
p('C31','Request statistics lose no request',
  'Every handled request is counted exactly once: the sum of all published request counts plus the count not yet published equals the number of requests handled, for any interleaving of request handling and publishing. Published peers equal seeds plus leeches of the same publication.',
  ['schedules'],'every interleaving of one publication round with a concurrent request at atomic-operation granularity',
  'Publishing is disabled in the tests.',
  ['tracker/stats/publish.go','tracker/stats/stats.go'],[('Publish','tracker/stats/publish.go')],(),['expvar values'])
p('C32','Recycled objects are clean and exclusively owned',
  'An object taken from a pool is owned by exactly one user until it is returned, a recycled encoder behaves exactly like a new one, a recycled peer-list buffer has its full capacity, and the creation counter equals the number of objects ever created.',
  ['histories'],'every sequence of up to 5 get / put operations, with either reuse or fresh creation at each get',
  'TestPeerPool does one put and get.',
  ['pools/pool.go','pools/pools.go'],[('Pool','pools/pool.go')],(),['Get','Put','Created'])
p('C33','Static files are served only by exact name, never the config',
  'The tracker\'s web server offers every file of the (flat) embedded folder except the configuration under exactly its name, "/" as the index page, and nothing else; HTML is served with only tabs and newlines removed and other files unchanged. Any other requested path is not found.',
  ['inputs'],'arbitrary requested paths up to the stated length; arbitrary file contents and names up to the stated length',
  'Tests compare two files; lookups of other paths are not tested.',
  ['config/embed.go','tracker/http/worker.go'],[('GenerateEmbeddedCache','config/embed.go')],(),['embedded cache','HTTP reply'])
p('C34','Zero-copy conversions preserve content and bounds',
  'Converting any string to bytes without copying yields the same bytes with length (and, for the standard variant, capacity) equal to the string\'s length, and adjusting a length returns the previous length and exposes exactly the requested prefix.',
  ['inputs'],'all strings and slices up to the stated length and all lengths within capacity',
  'Tests use three fixed strings.',
  ['tracker/utils/unsafemanip/manipulation.go'],[('StringToBytes','tracker/utils/unsafemanip/manipulation.go')],(),['returned slices'])
p('C35','Opening storage honours configuration and reports failures',
  'Opening storage with an unknown database or backup type, or with a backup that fails to initialise or load, returns an error and never a half-initialised database; with a valid configuration it returns the database restored from the configured backup with its statistics synchronised.',
  ['configurations','fault_sequences'],'arbitrary type names up to the stated length and every backup init / load outcome',
  'Tests only open the gomap database without backup.',
  ['tracker/storage/database.go','tracker/storage/driver.go',M+'memory.go',M+'backup_file.go'],[('Open','tracker/storage/database.go')],(),['Open result'])
p('C36','File backup restores what was saved, or an empty database',
  'Loading from the backup file after a save restores exactly the saved database; a missing file yields an empty usable database, and an unreadable or undecodable file yields an error. Saving reports every encode or write failure.',
  ['fault_sequences','inputs'],'every database of up to 2 peers and every outcome of each file operation',
  'The file backup is never exercised by tests.',
  [M+'backup_file.go'],[('FileBackup Save/Load',M+'backup_file.go')],(),['backup file'])
p('C37','The configured services, and only those, run',
  'The tracker serves HTTP exactly when the HTTP mode is "enabled" or "info" (announces and scrapes only when "enabled") and UDP exactly when UDP is enabled, each on the configured address and port, and the profiler only when configured and only on the loopback interface. In info mode an announce gets a dictionary holding only an interval of at least an hour, scrapes and heartbeats an empty success, /stats the statistics, embedded files are served by exact name and never the configuration; in every mode the tracker stops on a termination signal. Without a loaded configuration, or when a configured listener cannot be opened, the tracker exits with a failure; statistics are published every configured interval and never when it is zero.',
  ['configurations','histories'],'every combination of HTTP mode (enabled, info, disabled, arbitrary other), UDP on or off, profiler port zero or not, arbitrary ports and an IPv4 address or none; IPv6 HTTP bind addresses are not claimed',
  'One test starts the tracker in one mode; info mode, disabled mode and the profiler are never started.',
  ['tracker/tracker.go','tracker/pprof.go','tracker/signalhandler.go'],[('Run','tracker/tracker.go'),('servePprof','tracker/pprof.go')],(),['listening sockets','HTTP replies'])
p('C38','An existing configuration file is never changed',
  'Start-up creates the configuration and cache folders and writes the default configuration, byte for byte, exactly when no configuration file exists; an existing file is never changed, and when the file cannot be examined for another reason than not existing nothing is written. No failing step stops start-up or writes anything else.',
  ['fault_sequences','inputs'],'existing or missing file with arbitrary contents, arbitrary default contents up to the stated length, and every outcome of every file operation, with a known home directory',
  'Tests check generation in the real home directory once and no failure.',
  ['config/init.go','config/embed.go','config/paths.go'],[('generateConfig','config/embed.go'),('initDirectories','config/paths.go')],(),['configuration file'])
p('C39','Each command does what it says and reports failure',
  'Every command of the command line does exactly what it names: start launches and records one tracker process unless one is recorded, stop and restart stop the recorded process, a restart launches a new tracker only after the old one has stopped, reset clears the record only, execute runs the tracker in the calling process, and status or an unknown command changes nothing. A command that fails exits with a failure status and prints the reason, character for character, on standard error; a command that succeeds exits with success.',
  ['inputs','fault_sequences'],'every command, an unknown one and none, with a process recorded or not, alive, dead or deaf to signals, and signalling, launching or changing the record failing with an arbitrary message',
  'Nothing in the tests runs the command line.',
  ['cli_entry.go','controller/controller.go'],[('main, logFatal','cli_entry.go'),('Start / Stop / Clear / Status','controller/controller.go')],(),['exit status','standard error','process id file','processes launched and signalled'])
p('C40','Concurrent connects, checks, expiry and saves lose no connection',
  'When clients connect, have their ids checked, are expired, are counted and are saved at the same time, every acknowledged connection id stays accepted until it is replaced or expires, an expiry pass removes only ids that have expired, a count or a saved file reflects the ids of one moment, and there is no data race and no deadlock.',
  ['schedules'],'every interleaving, at lock operations, of three operations at once out of two clients connecting, an expiry pass, a check, a count and a save (thorough: four operations)',
  'Tests use the connection database from one goroutine at a time.',
  ['tracker/udp/conndb.go','tracker/udp/udptracker.go'],[('connectionDatabase','tracker/udp/conndb.go')],(),['connection ids','saved connections'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
