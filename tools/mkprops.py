import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),
        **({'observe_at':obs} if obs else {}))))
D='datastruct/dict.go';Q='datastruct/quicklist.go';S='datastruct/skiplist.go';Z='datastruct/zset.go'
p('C01','A dict is a finite map, whatever its growth and rehash state',
 'After any history of Set, Get, Find, Delete, Size and random picks, a dict answers exactly as the finite map obtained by applying the same writes in order: Get/Find return the last value set for an equal key and nothing for keys never set or deleted, Set and Delete report correctly whether the key was new or missing, and Size is the number of distinct live keys. This holds for any consistent Hash/Equal pair, including hash functions that send many keys to one bucket, and at every intermediate step of growing and of incremental rehashing. No operation affects the entry of a different key.',
 ['inputs','histories'],'all keys, values, hash functions and operation sequences, with an operation at every point of a rehash',
 'The tests set a few thousand sequential keys with one hash function and look them up; they do not place every operation at every rehash step, nor deletes during a rehash, nor adversarial collisions.',
 [D],[('Dict.Set/keyIndex choose the table to insert into',D),('Dict.Find/Delete look in both tables while rehashing',D),('expand/rehash move whole buckets and swap the tables',D)],
 [('hashTables, rehashIndex','old and new bucket arrays and the first bucket not yet moved',D)],['Dict.Set','Dict.Get','Dict.Find','Dict.Delete','Dict.Size'])
p('C02','Dict iteration visits every entry exactly once; random picks are members',
 'An iteration over a dict that is only read or has values updated meanwhile returns every live entry exactly once and then nothing, also when the dict is in the middle of a rehash when the iteration starts, and any number of iterations may be open at the same time. The entries do not move while an iteration is open, and rehashing resumes once all of them are released. A random pick returns an entry that is in the dict, and nothing exactly when the dict is empty.',
 ['inputs','histories'],'all dict contents, all rehash positions at which an iteration or a pick starts, all interleavings of open iterations with lookups',
 'The tests iterate one dict that is not rehashing, and only check that random picks are not nil.',
 [D],[('DictIterator.Next walks both tables',D),('rehashStep is suspended while iterators > 0',D),('GetRandomKey skips moved buckets',D)],
 [('iterators','number of open iterations',D)],['DictIterator.Next','DictIterator.Release','Dict.GetRandomKey'])
p('C03','Set union, intersection and difference are exact and leave operands alone',
 'A set contains exactly the members added and not deleted since; Add reports whether the member was new, Delete whether it was present, Size is the number of members and Range lists each of them once. Union, intersection and difference return a new set with exactly the members set theory prescribes, for any two operands including empty, equal or the very same set. The operands and their members are unchanged by it.',
 ['inputs','histories'],'all pairs of sets, all histories that built them (including operands in the middle of a rehash), aliasing of the operands',
 'The tests combine two small literal sets; they do not cover operands being rehashed, operand aliasing, or that operands stay unchanged.',
 ['datastruct/set.go',D],[('Set.Union/Intersect/Difference iterate and test membership','datastruct/set.go')],None,['Set.Add','Set.Delete','Set.Contains','Set.Range','Set.Union','Set.Intersect','Set.Difference','Set.Size'])
p('C04','A quicklist is a sequence across page boundaries, splits and removals',
 'After any history of pushes, pops, inserts and removals at either end or any index, a quicklist holds exactly the sequence those operations produce: Len is its length, Get returns the element at an index and nothing outside it, Find the first position of a value or -1, and Range(start, stop) the elements from start to stop inclusive with negative positions counted from the end, clipped at the end. Pops and removals return the element removed, and an operation outside the valid positions changes nothing and returns nothing. This does not depend on how the elements are spread over pages.',
 ['inputs','histories'],'all operation sequences, all lengths (so all page layouts, including full pages split by an insert and pages emptied by removals), all indexes',
 'The tests use short lists in one page or only pushes; page splits at each offset, lookups from the back half and removals that empty a page are not reached.',
 [Q],[('get walks the pages from the nearer end',Q),('Insert splits a full page',Q),('Remove drops an emptied page',Q)],
 [('data, length','list of pages and the total number of elements',Q)],['Quicklist.PushBack','Quicklist.PushFront','Quicklist.PopBack','Quicklist.PopFront','Quicklist.Insert','Quicklist.Remove','Quicklist.Get','Quicklist.Range','Quicklist.Find'])
p('C05','A sorted set has one score per member, the same in both of its views',
 'After any history of adds, score updates, deletions and range deletions, a sorted set holds each member once, with the score last given to it: the lookup by member and the ordered listing contain the same members with the same scores, and the size is their number. The ordered listing is sorted by score and, among equal scores, by member in byte order. Add reports whether the member was new and Delete whether it was present.',
 ['inputs','histories'],'all members (including the empty string), all non-NaN scores (including infinities and equal scores), all operation sequences and all random tower heights',
 'The tests add a handful of members once; score updates, deletions of the last element of a level, ties and the random heights are sampled at best.',
 [Z,S],[('Zset.Add/Delete keep dict and skiplist in step',Z),('Skiplist.Insert/Delete/deleteNode relink forward, backward pointers and spans',S)],
 [('dict, skiplist','member to score and the ordered view',Z)],['Zset.Add','Zset.Get','Zset.Delete','Zset.Size','Zset.RangeByRank'])
p('C06','Sorted set rank and score queries and range deletions are exact',
 'On any sorted set, the rank of a member is its position in the order (from either end), a rank range returns exactly the members at those positions in order, a score range exactly the members whose score lies in the closed interval, in order and cut at the limit, and a count their number; ranges past the end are clipped and empty or inverted ranges return nothing. Deleting a rank or score range removes exactly the members the corresponding query returns and no other. No range argument, however large, makes an operation fail or allocate more than the set holds.',
 ['inputs','histories'],'all sets reachable by any history and random heights, all rank and score bounds including infinities and 64-bit extremes',
 'Tests query a few fixed ranges of one set; spans maintained over long histories of inserts and deletes and extreme bounds are not exercised.',
 [S,Z],[('spans accumulate to ranks',S),('DeleteRangeByRank/DeleteRangeByScore/GetRank/GetElementByRank/RangeByRank/RangeByScore/Count',S)],
 [('Levels[i].Span','distance in ranks to the next node of the level',S)],['Zset.GetRank','Zset.RangeByRank','Zset.RangeByScore','Zset.Count','Zset.DeleteRangeByRank','Zset.DeleteRangeByScore'])
p('C07','Request parsing does not depend on how the bytes arrive',
 'For every byte stream sent on a connection, the sequence of commands executed is the same however the stream is cut into reads, including one byte at a time and many pipelined commands in one read, and so are the replies to well-formed requests. Each well-formed request, array of bulk strings, bulk string or inline line, yields exactly its arguments, byte for byte, with any bytes in bulk strings. A malformed request ends the connection and nothing after it on that connection is executed.',
 ['inputs','schedules'],'all byte streams and all ways of cutting them into reads',
 'Unit tests feed whole requests (and one cut) to the parser; they cannot enumerate the cuts or the pipelined combinations.',
 ['server/resp.go','server/client.go','server/server.go'],[('process{Inline,Bulk,MultiBulk}Buffer keep their progress in the client','server/resp.go'),('readQueryFromClient grows the buffer','server/server.go'),('reset keeps unread bytes','server/client.go')],
 [('queryBuf, queryLen, cmdType, multiBulkLen, bulkLen, args','unparsed bytes and the progress in the current request','server/client.go')],['replies on the TCP connection'])
p('C08','No client input crashes the server',
 'Whatever bytes clients send and in whatever order they send commands, with any arguments and any arity, the server neither panics nor exits and keeps serving every other connection. Memory taken for a request or a reply is bounded by declared protocol limits and by the data actually held, never by a number a client merely mentions. Disconnects at any point have no effect on other clients.',
 ['inputs','histories','fault_sequences'],'all byte streams, all commands with all argument values on all dataset states, disconnects at all points',
 'Tests send well-formed commands with sensible values; the panicking corner (an index, a conversion, a nil, a huge size) is an input nobody listed.',
 ['server/resp.go','server/command.go','server/commandkey.go','server/commandlist.go','server/commandset.go','server/commandzset.go','server/commandhash.go','server/commandstring.go','server/client.go',D,Q,S],
 [('limits on bulk and array lengths','server/resp.go'),('argument validation in each command','server/command*.go'),('range clipping','datastruct')],None,['process liveness','PING on another connection'])
p('C09','Every command gets exactly one well-formed reply',
 'Each command executed on a connection produces exactly one complete RESP value, so that replies match commands in order. Array headers announce exactly the number of elements that follow, bulk lengths are the byte length of their content whatever bytes it has, and a simple string, error or integer is one line. An error reply never contains bytes taken from the request that would break its framing.',
 ['inputs','histories'],'all commands, all argument bytes (including CR, LF, NUL and invalid UTF-8), all dataset states',
 'Tests compare a few literal replies; array headers computed separately from the elements and attacker-chosen bytes in replies are not enumerated.',
 ['server/client.go','server/command*.go'],[('addReply* helpers format replies','server/client.go'),('each command ends with one reply call','server/command*.go')],
 [('replayHead','queued reply fragments','server/client.go')],['bytes on the TCP connection'])
p('C10','Commands run only when authenticated, known and with the right arity',
 'When a password is configured, no command other than AUTH is executed on a connection, and so nothing is read or changed, until AUTH with that exact password succeeds there; a failed AUTH revokes the permission and one connection\'s authentication never carries over to another. An unknown command, or a known one with a number of arguments its arity does not allow, gets an error and has no effect. Command names are matched without regard to case and never partially.',
 ['inputs','histories','configurations'],'all sequences of commands and AUTH attempts on all connections, all command names and argument counts, with and without a password',
 'The tests do not configure a password and do not call the dispatcher with wrong arities.',
 ['server/command.go','server/commandconnection.go'],[('processCommand checks arity and authentication before call','server/command.go'),('authCommand','server/commandconnection.go'),('commandTable arities','server/command.go')],
 [('authenticated','per connection permission','server/client.go')],['replies','dataset'])
p('C11','Databases are isolated and SELECT is per connection',
 'A command reads and writes only the database its connection selected, database 0 on a new connection; a key, its value and its expiry in one database are never visible in or affected from another. SELECT accepts exactly the indexes of configured databases and changes the selection of its own connection only; a rejected SELECT keeps the previous selection. Restarting from the append only file puts every key back into its own database.',
 ['inputs','histories','configurations'],'all interleavings of commands of several connections with different selections, all SELECT arguments, all configured database counts',
 'No test uses SELECT or two databases at once.',
 ['server/commandconnection.go','server/client.go','server/aof.go','server/server.go'],[('client.db','server/client.go'),('aofSelectDBID inserts select into the file','server/aof.go')],
 [('client.db','selected database','server/client.go'),('aofSelectDBID','database selected at the end of the file','server/aof.go')],['replies','dataset after restart'])
p('C12','An expired key is never observable and a live key is never lost',
 'From the moment its time to live has passed, a key is treated as absent by every command that reads or modifies it, and is reported by none; before that moment, and for keys without expiry, neither lazy nor periodic expiry removes it. SET removes an expiry, SETEX, EXPIRE and EXPIREAT replace it, TTL reports the remaining seconds, -1 without expiry and -2 without key, and a key created after its predecessor expired or was deleted starts without expiry. Expiry of one key affects no other key.',
 ['inputs','histories','schedules'],'all expiry times (past, far future, out of range), all command sequences and all moments at which the periodic sampling runs between them',
 'No test covers expiry; it depends on the clock and on a sampling cron.',
 ['server/command.go','server/commandkey.go','server/commandstring.go','server/server.go'],[('expireIfNeeded before each access','server/command.go'),('databasesCron samples','server/server.go'),('expireCommand, expireAtCommand, setExCommand, setCommand','server/commandkey.go')],
 [('db.Expire','key to deadline in ms','database/database.go')],['GET, TTL, KEYS and every typed command'])
p('C13','A rejected command leaves no trace',
 'A command answered with an error, because the key holds a value of another type, or an argument is invalid, changes no key, value, expiry or type, creates no key, and is not logged to the append only file. The same holds for a read command, whatever it returns. In particular no part of a multi-argument write is applied when the command is rejected.',
 ['inputs','histories'],'every command with every argument on every combination of existing value types',
 'No test runs a command on a key of the wrong type or checks the dataset after an error.',
 ['server/commandhash.go','server/commandlist.go','server/commandset.go','server/commandzset.go','server/commandkey.go','server/commandstring.go'],
 [('get*/get*IfExist check the type before use','server/command*.go'),('zAddCommand parses all scores first','server/commandzset.go')],None,['dataset before and after','append only file before and after'])
p('C14','The append only file records every change, once, in order, in its database',
 'With the append only file enabled, every command that changes the dataset is appended exactly once, in execution order and preceded by a SELECT whenever its database differs from that of the previous entry; read commands, rejected commands and removals that remove nothing are not. A relative expiry is recorded as the absolute time it means, and a random choice (SPOP) or a lazy expiry as its effect, so replaying the file yields the same dataset at any later time. The bytes recorded denote exactly the executed arguments, whatever bytes they contain.',
 ['inputs','histories'],'all command sequences over several connections and databases, all argument bytes',
 'No test enables the append only file.',
 ['server/aof.go','server/command.go','server/command*.go'],[('call compares the dirty counter','server/command.go'),('feedAppendOnlyFile translates and appends','server/aof.go'),('catAppendOnly* encode','server/aof.go')],
 [('dirty','number of changes','server/server.go'),('aofBuf','entries not yet written','server/server.go')],['bytes of the append only file','dataset after restart'])
p('C15','Replaying the append only file restores the dataset exactly',
 'Loading a file that the server wrote, of any length, with arguments of any size and any bytes, performs exactly the recorded commands in order, so that after a restart every key has its value, type, order and expiry of before. Loading logs nothing and expires nothing by itself, and new commands after it continue the file consistently. Restarting any number of times gives the same dataset.',
 ['inputs','histories','crash_points'],'all files the server can write, stops after any acknowledged command, any argument sizes relative to the read buffer',
 'No test loads a file; argument boundaries against the 64 KiB read buffer and binary content are the kind of input nobody samples.',
 ['server/aof.go'],[('loadAppendOnlyFile parses and executes','server/aof.go'),('catAppendOnlyGenericCommand','server/aof.go')],None,['dataset after restart'])
p('C16','A rewritten append only file reproduces the dataset',
 'The file produced by a rewrite, replayed into an empty server, yields every key of every database with the same type, elements, list order, scores, values and expiry (to the second) as the snapshot, and nothing else. This holds for values of any size, so across the chunks large values are split into, and any bytes. Rewriting does not change the live dataset.',
 ['inputs','histories'],'all datasets over all databases, types and sizes',
 'No test rewrites the file.',
 ['server/aof.go','database/database.go','datastruct/dict.go'],[('rewrite*Object emit chunks','server/aof.go'),('DeepCopy snapshots','database/database.go')],None,['rewritten file','dataset after restart'])
p('C17','A rewrite loses and doubles no command executed while it runs',
 'Commands executed between the start of a rewrite and the replacement of the file appear in effect exactly once after a restart, at whatever moment of the rewrite they run; the snapshot reflects exactly the dataset at the start and is not affected by later commands. The file is replaced only when the new one is complete, so that a stop at any point leaves a file that restores all acknowledged commands. At most one rewrite runs at a time and a new one can start after the previous one ended.',
 ['schedules','histories','crash_points'],'all interleavings of commands with the background rewrite, a stop at any point of the hand-over',
 'No test runs a rewrite, and the outcome depends on the interleaving with a background goroutine.',
 ['server/aof.go','server/commandserver.go'],[('DeepCopy before the goroutine starts','server/aof.go'),('aofRewriteBuf collects the difference','server/aof.go'),('aofRewriteDoneCallback appends and renames','server/aof.go'),('compare-and-swap on the background task','server/aof.go')],
 [('aofRewriteBuf','commands since the snapshot','server/server.go'),('backgroundTaskTypeAtomic','running task','server/server.go')],['dataset after restart'])
p('C18','Replies arrive complete, in order and exactly once',
 'The bytes a client receives are exactly the concatenation of the replies to its commands in order, without loss, repetition or reordering, however much of each write the socket accepts and however slowly the client reads. Replies of any size are delivered, and the connection goes on to serve later commands. No client receives bytes meant for another.',
 ['schedules','inputs','fault_sequences'],'all reply sizes, all partial-write lengths and all read speeds',
 'Tests use small replies that one write accepts; the resumption after a partial write is never executed.',
 ['server/server.go','server/client.go'],[('sendReplayToClient resumes at sentLen','server/server.go'),('addReply registers the writable event','server/client.go')],
 [('sentLen, replayHead','progress in the reply being sent, queue of replies','server/client.go')],['bytes on the TCP connection'])
p('C19','The event loop calls exactly the registered handlers',
 'A file event handler is called only while it is registered for that descriptor and direction and only when the descriptor is ready for it; adding or removing one direction leaves the other as it was, and a duplicate addition or a removal of something not registered is an error without effect. A one-shot timer runs once, a repeating one again and again with at least its interval in between, none before its time or after its removal, and identifiers are unique. An event removed by an earlier handler of the same round is not delivered.',
 ['schedules','histories'],'all sequences of adding and removing events, from inside handlers too, and all readiness patterns',
 'The test registers one reader, one writer and two timers once.',
 ['ae/ae.go'],[('fileEventMap keyed by descriptor and direction','ae/ae.go'),('AddFileEvent/RemoveFileEvent compute the epoll mask','ae/ae.go'),('wait/processEvents','ae/ae.go')],
 [('fileEventMap, timeEventHead','registered events','ae/ae.go')],['EventLoop.AddFileEvent','EventLoop.RemoveFileEvent','EventLoop.AddTimeEvent','EventLoop.RemoveTimeEvent','EventLoop.Main'])
p('C20','The server listens on exactly the configured address and port',
 'The listening socket is bound to the IPv4 address and port of the configuration, and connections reach the server there and not on other addresses. Connecting goes to exactly the given address and port. An address that is not IPv4 is refused with an error, and no failure on the way leaves a descriptor open or returns a usable one.',
 ['inputs','configurations','fault_sequences'],'all addresses and ports, failures of each system call',
 'The test binds one address and connects to the same wrong one, so a mistake common to both is invisible.',
 ['server/tcp.go','socket/socket.go'],[('Bind/Connect fill the socket address','socket/socket.go'),('CreateTCPServer closes on failure','server/tcp.go')],None,['listening address','CreateTCPServer result'])
p('C21','Each command does and answers what its data type prescribes',
 'For every dataset state and arguments, the string, hash, list, set, sorted set and key commands have the effect and the reply that the abstract value of the key prescribes: counts of new or removed members, popped or indexed elements, cardinalities, scores, membership, set algebra, ranges, keys matching a pattern. A missing key behaves as the empty value for reads, and the first write creates it with the right type. A command touches no key other than those it names.',
 ['inputs','histories'],'all commands, all arguments, all dataset states',
 'No test executes a command against a dataset; the command layer is untested.',
 ['server/commandstring.go','server/commandhash.go','server/commandlist.go','server/commandset.go','server/commandzset.go','server/commandkey.go'],
 [('one function per command','server/command*.go'),('commandTable maps names to functions','server/command.go')],None,['replies on the TCP connection'])
p('C22','A change is in the append only file before its reply, fsynced as configured',
 'A client that has received the reply to a change it waited for finds the change in effect after the server process is killed at any later moment and restarted. All logged commands are written to the file, in order and exactly once, before the server waits for new requests. With policy always each write is synced to disk before that, with everysec a write more than a second after the last sync starts one, with no none does.',
 ['crash_points','histories','configurations'],'a kill after any acknowledged command, all three fsync policies',
 'No test enables the append only file or kills the server.',
 ['server/aof.go','server/server.go'],[('beforeSleepProc flushes before waiting','server/server.go'),('flushAppendOnlyFile/aofFileSync','server/aof.go')],
 [('aofBuf','entries not yet written','server/server.go'),('aofLastFsyncTime','time of the last sync','server/server.go')],['dataset after kill and restart'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert x['statement'].count('. ')<=3,x['id']
print(len(P))
