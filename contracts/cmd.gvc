# Commands (server/command*.go).
package server
group server

globinv theErrors: !(errNotExist is nil) && !(errWrongType is nil) && !isErr(errWrongType, errNotExist) && isErr(errNotExist, errNotExist)

pred placesKept() = forall r int {vkind[r]} {vdb[r]} {vkey[r]} :: !fresh(r) ==> vkind[r] == old(vkind[r]) && vdb[r] == old(vdb[r]) && vkey[r] == old(vkey[r])

def there(c *Client, key string) bool = c.db.Dict.has[any(key)]
def valueAt(c *Client, key string) any = c.db.Dict.val[any(key)]

# The value of a key that a command reads.
func getHashIfExist(client, key) (h, err)
  requires okKV(client)
  modifies modset lapse(client)
  gensures noneOwned()
  ensures okKV(client) && looked(client, key)
  ensures "found": err is nil <==> there(client, key) && valueAt(client, key) is *datastruct.Dict
  ensures "value": err is nil ==> h != nil && any(h) == valueAt(client, key)
  ensures "missing": isErr(err, errNotExist) <==> !there(client, key)

func getQuickListIfExist(client, key) (h, err)
  requires okKV(client)
  modifies modset lapse(client)
  gensures noneOwned()
  ensures okKV(client) && looked(client, key)
  ensures "found": err is nil <==> there(client, key) && valueAt(client, key) is *datastruct.Quicklist
  ensures "value": err is nil ==> h != nil && any(h) == valueAt(client, key)
  ensures "missing": isErr(err, errNotExist) <==> !there(client, key)

func getSetIfExist(client, key) (h, err)
  requires okKV(client)
  modifies modset lapse(client)
  gensures noneOwned()
  ensures okKV(client) && looked(client, key)
  ensures "found": err is nil <==> there(client, key) && valueAt(client, key) is *datastruct.Set
  ensures "value": err is nil ==> h != nil && any(h) == valueAt(client, key)
  ensures "missing": isErr(err, errNotExist) <==> !there(client, key)

# The value of a key that a command writes to: an empty one of its type if there is none.
pred othersKept(c *Client, key string) = (forall k any {c.db.Dict.has[k]} :: k != any(key) ==> (c.db.Dict.has[k] <==> old(c.db.Dict.has[k]))) && (forall k any {c.db.Dict.val[k]} :: k != any(key) ==> c.db.Dict.val[k] == old(c.db.Dict.val[k])) &&
  (forall k any {c.db.Expire.has[k]} :: k != any(key) ==> (c.db.Expire.has[k] <==> old(c.db.Expire.has[k]))) && (forall k any {c.db.Expire.val[k]} :: k != any(key) ==> c.db.Expire.val[k] == old(c.db.Expire.val[k]))
def wasThere(c *Client, key string) bool = old(c.db.Dict.has[any(key)]) && !c.lapsed
def wasAt(c *Client, key string) any = old(c.db.Dict.val[any(key)])

modset creates(c *Client) = modset lapse(c), comp datastruct.DictEntry.Value(e) if true

func getHash(client, key) (h, err)
  requires okKV(client)
  modifies modset creates(client)
  on call datastruct.NewDict(t, d) {
    vkind[ref(d)] = 3
    vdb[ref(d)] = client.db
    vkey[ref(d)] = key
  }
  gensures noneOwned()
  ensures okKV(client) && lapses(client, key) && logged(client, key) && othersKept(client, key) && placesKept()
  ensures "found": err is nil <==> !wasThere(client, key) || wasAt(client, key) is *datastruct.Dict
  ensures "value": err is nil ==> h != nil && there(client, key) && any(h) == valueAt(client, key)
  ensures "old": wasThere(client, key) ==> unchanged(client.db)
  ensures "new": !wasThere(client, key) ==> !client.db.Expire.has[any(key)] && fresh(h) && h.n == 0 && forall f any {h.has[f]} :: !h.has[f]
  ensures "error": !isErr(err, errNotExist)

func getQuickList(client, key) (h, err)
  requires okKV(client)
  modifies modset creates(client)
  on call datastruct.NewQuicklist(q) {
    vkind[ref(q)] = 5
    vdb[ref(q)] = client.db
    vkey[ref(q)] = key
  }
  gensures noneOwned()
  ensures okKV(client) && lapses(client, key) && logged(client, key) && othersKept(client, key) && placesKept()
  ensures "found": err is nil <==> !wasThere(client, key) || wasAt(client, key) is *datastruct.Quicklist
  ensures "value": err is nil ==> h != nil && there(client, key) && any(h) == valueAt(client, key)
  ensures "old": wasThere(client, key) ==> unchanged(client.db)
  ensures "new": !wasThere(client, key) ==> !client.db.Expire.has[any(key)] && fresh(h) && h.n == 0
  ensures "error": !isErr(err, errNotExist)

func getSet(client, key) (h, err)
  requires okKV(client)
  modifies modset creates(client)
  on call datastruct.NewSet(t, d) {
    vkind[ref(d.dict)] = 4
    vdb[ref(d.dict)] = client.db
    vkey[ref(d.dict)] = key
  }
  gensures noneOwned()
  ensures okKV(client) && lapses(client, key) && logged(client, key) && othersKept(client, key) && placesKept()
  ensures "found": err is nil <==> !wasThere(client, key) || wasAt(client, key) is *datastruct.Set
  ensures "value": err is nil ==> h != nil && there(client, key) && any(h) == valueAt(client, key)
  ensures "old": wasThere(client, key) ==> unchanged(client.db)
  ensures "new": !wasThere(client, key) ==> !client.db.Expire.has[any(key)] && fresh(h) && fresh(h.dict) && h.dict.n == 0 && forall f any {h.dict.has[f]} :: !h.dict.has[f]
  ensures "error": !isErr(err, errNotExist)

# What a command answers.
pred okClient(c *Client) = cliOK(c) && c.pend == 0 && kvOK(c.srv) && ofServer(c.srv, c.db)
pred answered(c *Client, err error, s string) = err is nil ==> pushed(c, s) && c.pend == 0 && c.replies == old(c.replies) + 1
pred refused(c *Client, err error) = err is nil ==> answered(c, err, c.outs[c.outn-1]) && errorRep(c.outs[c.outn-1])
pred done(c *Client, err error) = cliOK(c) && onlyMine(c) && freshOwn(c) && okKV(c) && (err is nil ==> c.pend == 0 && c.replies == old(c.replies) + 1)
pred noTrace(c *Client) = unchanged(c.db) && c.srv.dirty == old(c.srv.dirty) && c.srv.aofBuf.s == old(c.srv.aofBuf.s) && c.srv.aofSelectDBID == old(c.srv.aofSelectDBID)

modset reads(c *Client) = modset replies(c), modset lapse(c)
modset writes(c *Client) = modset replies(c), modset creates(c), c.srv.dirty

# Strings and keys.
func pingCommand(client) (err)
  implements server.command.proc
  requires okClient(client)
  modifies modset replies(client)
  ensures done(client, err) && answered(client, err, simpleR("PONG"))

func setCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset writes(client)
  ensures done(client, err) && answered(client, err, "+OK\r\n") && placesKept()
  ensures "set": there(client, client.args[1]) && valueAt(client, client.args[1]) == any(client.args[2]) && !client.db.Expire.has[any(client.args[1])]
  ensures "other keys": othersKept(client, client.args[1])
  ensures "logged": client.srv.dirty == old(client.srv.dirty) + 1 && client.srv.aofBuf.s == old(client.srv.aofBuf.s)

def maxTTL() int = 4611686018427387

func setExCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 4
  modifies modset writes(client)
  ensures done(client, err) && placesKept() && clock >= old(clock) && client.srv.aofBuf.s == old(client.srv.aofBuf.s)
  ensures "refused": !isInt(client.args[2]) || abs(intOf(client.args[2])) > maxTTL() ==> refused(client, err) && noTrace(client)
  ensures "set": isInt(client.args[2]) && abs(intOf(client.args[2])) <= maxTTL() ==> answered(client, err, "+OK\r\n") && there(client, client.args[1]) && valueAt(client, client.args[1]) == any(client.args[3]) &&
    client.db.Expire.has[any(client.args[1])] && deadline(client.db, client.args[1]) == clock + 1000 * intOf(client.args[2]) && client.srv.dirty == old(client.srv.dirty) + 1
  ensures "other keys": othersKept(client, client.args[1])

func getCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1])
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, nullR())
  ensures "text": there(client, client.args[1]) && valueAt(client, client.args[1]) is string ==> answered(client, err, bulkR((valueAt(client, client.args[1]) as string)))
  ensures "wrong type": there(client, client.args[1]) && !(valueAt(client, client.args[1]) is string) ==> refused(client, err)

func keyExists(client, key) (exist, err)
  requires okKV(client)
  modifies modset lapse(client)
  gensures noneOwned()
  ensures okKV(client) && looked(client, key) && err is nil
  ensures "exists": exist <==> there(client, key)

pred expiresAt(c *Client, err error, when int) = answered(c, err, "+OK\r\n") && there(c, c.args[1]) && valueAt(c, c.args[1]) == wasAt(c, c.args[1]) && c.db.Expire.has[any(c.args[1])] && deadline(c.db, c.args[1]) == when && c.srv.dirty == old(c.srv.dirty) + 1

func expireCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 3
  modifies modset writes(client)
  ensures done(client, err) && placesKept() && clock >= old(clock)
  ensures "refused": !isInt(client.args[2]) || abs(intOf(client.args[2])) > maxTTL() ==> refused(client, err) && noTrace(client)
  ensures "looked": isInt(client.args[2]) && abs(intOf(client.args[2])) <= maxTTL() ==> lapses(client, client.args[1]) && logged(client, client.args[1])
  ensures "missing": isInt(client.args[2]) && abs(intOf(client.args[2])) <= maxTTL() && !wasThere(client, client.args[1]) ==> answered(client, err, intR(0)) && looked(client, client.args[1]) && client.srv.dirty == old(client.srv.dirty)
  ensures "expires": isInt(client.args[2]) && abs(intOf(client.args[2])) <= maxTTL() && wasThere(client, client.args[1]) ==> expiresAt(client, err, clock + 1000 * intOf(client.args[2]))
  ensures "other keys": othersKept(client, client.args[1])

func expireAtCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 3
  modifies modset writes(client)
  ensures done(client, err) && placesKept() && clock >= old(clock)
  ensures "refused": !isInt(client.args[2]) || abs(intOf(client.args[2])) > 2 * maxTTL() ==> refused(client, err) && noTrace(client)
  ensures "looked": isInt(client.args[2]) && abs(intOf(client.args[2])) <= 2 * maxTTL() ==> lapses(client, client.args[1]) && logged(client, client.args[1])
  ensures "missing": isInt(client.args[2]) && abs(intOf(client.args[2])) <= 2 * maxTTL() && !wasThere(client, client.args[1]) ==> answered(client, err, intR(0)) && looked(client, client.args[1]) && client.srv.dirty == old(client.srv.dirty)
  ensures "expires": isInt(client.args[2]) && abs(intOf(client.args[2])) <= 2 * maxTTL() && wasThere(client, client.args[1]) ==> expiresAt(client, err, 1000 * intOf(client.args[2]))
  ensures "other keys": othersKept(client, client.args[1])

func ttlCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1])
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, intR(-2))
  ensures "no expiry": there(client, client.args[1]) && !client.db.Expire.has[any(client.args[1])] ==> answered(client, err, intR(-1))
  ensures "remaining": there(client, client.args[1]) && client.db.Expire.has[any(client.args[1])] ==> answered(client, err, intR(quot(deadline(client.db, client.args[1]) - clock, 1000)))

# Several keys: each is looked at, in order.
pred keptAll(c *Client) = (forall k any {c.db.Dict.has[k]} :: c.db.Dict.has[k] ==> old(c.db.Dict.has[k])) && (forall k any {c.db.Dict.val[k]} :: c.db.Dict.has[k] ==> c.db.Dict.val[k] == old(c.db.Dict.val[k])) &&
  (forall k any {c.db.Expire.has[k]} :: c.db.Expire.has[k] ==> old(c.db.Expire.has[k])) && (forall k any {c.db.Expire.val[k]} :: c.db.Expire.has[k] ==> c.db.Expire.val[k] == old(c.db.Expire.val[k])) &&
  (forall k any {c.db.Dict.has[k]} {c.db.Expire.has[k]} :: c.db.Dict.has[k] && old(c.db.Expire.has[k]) ==> c.db.Expire.has[k])

# Only expired keys are gone, and if none is nothing was logged.
pred lapsedOnly(c *Client) = keptAll(c) && clock >= old(clock) && (forall k string {c.db.Dict.has[any(k)]} :: old(c.db.Dict.has[any(k)]) && !c.db.Dict.has[any(k)] ==> !c.srv.loading && old(c.db.Expire.has[any(k)]) && old(deadline(c.db, k)) < clock)
pred quiet(c *Client) = (forall k string {c.db.Dict.has[any(k)]} :: old(c.db.Dict.has[any(k)]) ==> c.db.Dict.has[any(k)]) ==> c.srv.aofBuf.s == old(c.srv.aofBuf.s) && c.srv.aofSelectDBID == old(c.srv.aofSelectDBID)

# inArgs(m, o, n, s): s is among the first n.
fun inArgs(map[int]string, int, int, string) bool
fun inArgsL(map[int]string, int, int, string) bool
axiom inArgsDef: forall m map[int]string :: forall o, n int :: forall s string {inArgs(m, o, n, s)} :: inArgsL(m, o, n, s) == inArgs(m, o, n, s) && (n <= 0 ==> !inArgs(m, o, n, s)) && (n > 0 ==> (inArgs(m, o, n, s) <==> inArgsL(m, o, n-1, s) || m[o+n-1] == s))
def named(c *Client, i int, n int, s string) bool = inArgs(elems(c.args), off(c.args) + i, n, s)

func delCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 2
  modifies modset reads(client), client.srv.dirty
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && keptAll(client) && clock >= old(clock)
  loop 1 invariant "named keys": forall k string {client.db.Dict.has[any(k)]} :: client.db.Dict.has[any(k)] <==> old(client.db.Dict.has[any(k)]) && !inArgs(elems(rangeover), off(rangeover), rangeindex + 1, k)
  loop 1 invariant "no trace": client.srv.dirty == old(client.srv.dirty) ==> lapsedOnly(client)
  loop 1 invariant "quiet": quiet(client)
  loop 1 invariant "counted": client.srv.dirty == old(client.srv.dirty) + deleted && 0 <= deleted
  ensures done(client, err) && keptAll(client)
  ensures "deleted": forall k string {client.db.Dict.has[any(k)]} :: client.db.Dict.has[any(k)] <==> old(client.db.Dict.has[any(k)]) && !named(client, 1, len(client.args) - 1, k)
  ensures "reply": answered(client, err, intR(client.srv.dirty - old(client.srv.dirty))) && client.srv.dirty >= old(client.srv.dirty)
  ensures "no trace": client.srv.dirty == old(client.srv.dirty) ==> lapsedOnly(client) && quiet(client)

# Hashes. lastArg(m, o, n, s): the last of the even positions before n that holds s, -1 if there is none.
fun lastArg(map[int]string, int, int, string) int
fun lastArgL(map[int]string, int, int, string) int
axiom lastArgDef: forall m map[int]string :: forall o, n int :: forall s string {lastArg(m, o, n, s)} :: lastArgL(m, o, n, s) == lastArg(m, o, n, s) && (n <= 0 ==> lastArg(m, o, n, s) == -1) && (n > 0 ==> lastArg(m, o, n, s) == (m[o+n-2] == s ? n-2 : lastArgL(m, o, n-2, s))) && -1 <= lastArg(m, o, n, s) && (n > 0 ==> lastArg(m, o, n, s) <= n - 2) && (lastArg(m, o, n, s) >= 0 ==> m[o + lastArg(m, o, n, s)] == s)

def isHash(v any) bool = v is *datastruct.Dict
def hashAt(c *Client, key string) *datastruct.Dict = (c.db.Dict.val[any(key)] as *datastruct.Dict)
def hadField(c *Client, key string, f string) bool = wasThere(c, key) && old((c.db.Dict.val[any(key)] as *datastruct.Dict).has[any(f)])
def hadValue(c *Client, key string, f string) any = old((c.db.Dict.val[any(key)] as *datastruct.Dict).val[any(f)])
def hadFields(c *Client, key string) int = wasThere(c, key) ? old((c.db.Dict.val[any(key)] as *datastruct.Dict).n) : 0
def pairArg(c *Client, n int, f string) int = lastArg(elems(c.args), off(c.args) + 2, n, f)

modset atKey(c *Client, key string, kind int) = comp datastruct.Dict.has(d) if placed(ref(d), c.db, kind, key), comp datastruct.Dict.val(d) if placed(ref(d), c.db, kind, key),
  comp datastruct.Dict.key(d) if placed(ref(d), c.db, kind, key), comp datastruct.Dict.n(d) if placed(ref(d), c.db, kind, key), comp datastruct.Dict.ver(d) if placed(ref(d), c.db, kind, key)

def badHash(c *Client, key string) bool = wasThere(c, key) && !(wasAt(c, key) is *datastruct.Dict)

func hSetCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 4
  modifies modset writes(client), modset atKey(client, client.args[1], 3)
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && hash != nil && any(hash) == valueAt(client, client.args[1]) && there(client, client.args[1]) && 2 <= i <= len(client.args) && i % 2 == 0
  loop 1 invariant "fields": forall f string {hash.has[any(f)]} :: hash.has[any(f)] <==> hadField(client, client.args[1], f) || pairArg(client, i - 2, f) >= 0
  loop 1 invariant "values": forall f string {hash.val[any(f)]} :: hash.has[any(f)] ==> hash.val[any(f)] == (pairArg(client, i - 2, f) >= 0 ? any(client.args[2 + pairArg(client, i - 2, f) + 1]) : hadValue(client, client.args[1], f))
  loop 1 invariant "counted": hash.n == hadFields(client, client.args[1]) + created && client.srv.dirty == old(client.srv.dirty) + quot(i - 2, 2)
  ensures done(client, err) && placesKept() && othersKept(client, client.args[1])
  ensures "odd": len(client.args) % 2 == 1 ==> refused(client, err) && noTrace(client)
  ensures "looked": len(client.args) % 2 == 0 ==> lapses(client, client.args[1]) && logged(client, client.args[1])
  ensures "wrong type": len(client.args) % 2 == 0 && badHash(client, client.args[1]) ==> refused(client, err) && noTrace(client)
  ensures "fields": len(client.args) % 2 == 0 && !badHash(client, client.args[1]) ==> there(client, client.args[1]) && isHash(valueAt(client, client.args[1])) &&
    forall f string {hashAt(client, client.args[1]).has[any(f)]} :: hashAt(client, client.args[1]).has[any(f)] <==> hadField(client, client.args[1], f) || pairArg(client, len(client.args) - 2, f) >= 0
  ensures "values": len(client.args) % 2 == 0 && !badHash(client, client.args[1]) ==>
    forall f string {hashAt(client, client.args[1]).val[any(f)]} :: hashAt(client, client.args[1]).has[any(f)] ==> hashAt(client, client.args[1]).val[any(f)] == (pairArg(client, len(client.args) - 2, f) >= 0 ? any(client.args[2 + pairArg(client, len(client.args) - 2, f) + 1]) : hadValue(client, client.args[1], f))
  ensures "reply": len(client.args) % 2 == 0 && !badHash(client, client.args[1]) ==> answered(client, err, intR(hashAt(client, client.args[1]).n - hadFields(client, client.args[1]))) && client.srv.dirty > old(client.srv.dirty)

def hashOK(c *Client, key string) bool = there(c, key) && valueAt(c, key) is *datastruct.Dict
pred wrongType(c *Client, err error, key string, ok bool) = there(c, key) && !ok ==> refused(c, err)

func hGetCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 3
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], hashOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, nullR())
  ensures "value": hashOK(client, client.args[1]) ==> answered(client, err, hashAt(client, client.args[1]).has[any(client.args[2])] ? bulkR((hashAt(client, client.args[1]).val[any(client.args[2])] as string)) : nullR())

func hExistsCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 3
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], hashOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, intR(0))
  ensures "field": hashOK(client, client.args[1]) ==> answered(client, err, hashAt(client, client.args[1]).has[any(client.args[2])] ? intR(1) : intR(0))

func hLenCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], hashOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, intR(0))
  ensures "size": hashOK(client, client.args[1]) ==> answered(client, err, intR(hashAt(client, client.args[1]).n))

func hDelCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset reads(client), client.srv.dirty, modset atKey(client, client.args[1], 3)
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && hash != nil && any(hash) == valueAt(client, client.args[1]) && there(client, client.args[1]) && looked(client, client.args[1])
  loop 1 invariant "fields": forall f string {hash.has[any(f)]} :: hash.has[any(f)] <==> old(hash.has[any(f)]) && !inArgs(elems(rangeover), off(rangeover), rangeindex + 1, f)
  loop 1 invariant "values": forall f string {hash.val[any(f)]} :: hash.has[any(f)] ==> hash.val[any(f)] == old(hash.val[any(f)])
  loop 1 invariant "counted": hash.n == old(hash.n) - deleted && client.srv.dirty == old(client.srv.dirty) + deleted && deleted >= 0
  loop 1 invariant "no trace": deleted == 0 ==> forall f any {hash.has[f]} :: hash.has[f] <==> old(hash.has[f])
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], hashOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, intR(0))
  ensures "fields": hashOK(client, client.args[1]) ==> forall f string {hashAt(client, client.args[1]).has[any(f)]} :: hashAt(client, client.args[1]).has[any(f)] <==> hadField(client, client.args[1], f) && !named(client, 2, len(client.args) - 2, f)
  ensures "values": hashOK(client, client.args[1]) ==> forall f string {hashAt(client, client.args[1]).val[any(f)]} :: hashAt(client, client.args[1]).has[any(f)] ==> hashAt(client, client.args[1]).val[any(f)] == hadValue(client, client.args[1], f)
  ensures "reply": hashOK(client, client.args[1]) ==> answered(client, err, intR(hadFields(client, client.args[1]) - hashAt(client, client.args[1]).n)) && client.srv.dirty == old(client.srv.dirty) + hadFields(client, client.args[1]) - hashAt(client, client.args[1]).n
  ensures "no trace": !hashOK(client, client.args[1]) ==> client.srv.dirty == old(client.srv.dirty)


func hKeysCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client)
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && iter != nil && iter.dict == hash && iter.ver == hash.ver && !iter.released && fresh(arr(keys)) && fresh(iter)
  loop 1 invariant entry == nil ==> forall k any {iter.seen[k]} :: iter.seen[k] <==> hash.has[k]
  loop 1 invariant entry != nil ==> entry.Key is string && iter.seen[entry.Key]
  loop 1 invariant forall k any {iter.seen[k]} :: iter.seen[k] ==> hash.has[k]
  loop 1 invariant forall i int {keys[i]} :: 0 <= i < len(keys) ==> iter.seen[any(keys[i])] && !(entry != nil && any(keys[i]) == entry.Key)
  loop 1 invariant forall i, j int {keys[i], keys[j]} :: 0 <= i < j < len(keys) ==> keys[i] != keys[j]
  loop 1 invariant forall f string {iter.seen[any(f)]} :: iter.seen[any(f)] && !(entry != nil && any(f) == entry.Key) ==> exists i int {keys[i]} :: 0 <= i < len(keys) && keys[i] == f
  loop 1 invariant "count": card(iter.seen) == len(keys) + (entry != nil ? 1 : 0) && (entry == nil ==> len(keys) == hash.n)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], hashOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) && err is nil ==> sentArray(client, 0)
  ensures "number": hashOK(client, client.args[1]) && err is nil ==> sentArray(client, hashAt(client, client.args[1]).n)
  ensures "fields": hashOK(client, client.args[1]) && err is nil ==> forall f string {hashAt(client, client.args[1]).has[any(f)]} :: hashAt(client, client.args[1]).has[any(f)] ==> exists i int {sentAt(client.outs, i)} :: old(client.outn) < i < client.outn && sentAt(client.outs, i) == bulkR(f)
  ensures "once": hashOK(client, client.args[1]) && err is nil ==> forall i, j int {client.outs[i], client.outs[j]} :: old(client.outn) < i < j < client.outn ==> client.outs[i] != client.outs[j]

# Lists.
def listOK(c *Client, key string) bool = there(c, key) && valueAt(c, key) is *datastruct.Quicklist
def listAt(c *Client, key string) *datastruct.Quicklist = (c.db.Dict.val[any(key)] as *datastruct.Quicklist)
def badList(c *Client, key string) bool = wasThere(c, key) && !(wasAt(c, key) is *datastruct.Quicklist)
def hadLen(c *Client, key string) int = wasThere(c, key) ? old((c.db.Dict.val[any(key)] as *datastruct.Quicklist).n) : 0
def hadElem(c *Client, key string, i int) any = old((c.db.Dict.val[any(key)] as *datastruct.Quicklist).seq[i])

modset atList(c *Client, key string) = comp datastruct.Quicklist.seq(q) if placed(ref(q), c.db, 5, key), comp datastruct.Quicklist.n(q) if placed(ref(q), c.db, 5, key), comp datastruct.Quicklist.ver(q) if placed(ref(q), c.db, 5, key)

func lPushCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset writes(client), modset atList(client, client.args[1])
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && list != nil && any(list) == valueAt(client, client.args[1]) && there(client, client.args[1]) && 2 <= i <= len(client.args)
  loop 1 invariant "length": list.n == hadLen(client, client.args[1]) + i - 2 && client.srv.dirty == old(client.srv.dirty) + i - 2
  loop 1 invariant "elements": forall p int {list.seq[p]} :: 0 <= p < list.n ==> list.seq[p] == (p < i - 2 ? any(client.args[i-1-p]) : hadElem(client, client.args[1], p - (i - 2)))
  ensures done(client, err) && placesKept() && othersKept(client, client.args[1]) && lapses(client, client.args[1]) && logged(client, client.args[1])
  ensures "wrong type": badList(client, client.args[1]) ==> refused(client, err) && noTrace(client)
  ensures "length": !badList(client, client.args[1]) ==> listOK(client, client.args[1]) && listAt(client, client.args[1]).n == hadLen(client, client.args[1]) + len(client.args) - 2
  ensures "elements": !badList(client, client.args[1]) ==> forall p int {listAt(client, client.args[1]).seq[p]} :: 0 <= p < listAt(client, client.args[1]).n ==>
    listAt(client, client.args[1]).seq[p] == (p < len(client.args) - 2 ? any(client.args[len(client.args)-1-p]) : hadElem(client, client.args[1], p - (len(client.args) - 2)))
  ensures "reply": !badList(client, client.args[1]) ==> answered(client, err, intR(listAt(client, client.args[1]).n)) && client.srv.dirty == old(client.srv.dirty) + len(client.args) - 2

func rPushCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset writes(client), modset atList(client, client.args[1])
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && list != nil && any(list) == valueAt(client, client.args[1]) && there(client, client.args[1]) && 2 <= i <= len(client.args)
  loop 1 invariant "length": list.n == hadLen(client, client.args[1]) + i - 2 && client.srv.dirty == old(client.srv.dirty) + i - 2
  loop 1 invariant "elements": forall p int {list.seq[p]} :: 0 <= p < list.n ==> list.seq[p] == (p < hadLen(client, client.args[1]) ? hadElem(client, client.args[1], p) : any(client.args[2 + p - hadLen(client, client.args[1])]))
  ensures done(client, err) && placesKept() && othersKept(client, client.args[1]) && lapses(client, client.args[1]) && logged(client, client.args[1])
  ensures "wrong type": badList(client, client.args[1]) ==> refused(client, err) && noTrace(client)
  ensures "length": !badList(client, client.args[1]) ==> listOK(client, client.args[1]) && listAt(client, client.args[1]).n == hadLen(client, client.args[1]) + len(client.args) - 2
  ensures "elements": !badList(client, client.args[1]) ==> forall p int {listAt(client, client.args[1]).seq[p]} :: 0 <= p < listAt(client, client.args[1]).n ==>
    listAt(client, client.args[1]).seq[p] == (p < hadLen(client, client.args[1]) ? hadElem(client, client.args[1], p) : any(client.args[2 + p - hadLen(client, client.args[1])]))
  ensures "reply": !badList(client, client.args[1]) ==> answered(client, err, intR(listAt(client, client.args[1]).n)) && client.srv.dirty == old(client.srv.dirty) + len(client.args) - 2

func lPopCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client), client.srv.dirty, modset atList(client, client.args[1])
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], listOK(client, client.args[1]))
  ensures "nothing": !there(client, client.args[1]) || listOK(client, client.args[1]) && hadLen(client, client.args[1]) == 0 ==> answered(client, err, nullR())
  ensures "no change": !listOK(client, client.args[1]) || hadLen(client, client.args[1]) == 0 ==> client.srv.dirty == old(client.srv.dirty)
  ensures "first": listOK(client, client.args[1]) && hadLen(client, client.args[1]) > 0 ==> answered(client, err, bulkR((hadElem(client, client.args[1], 0) as string))) && client.srv.dirty == old(client.srv.dirty) + 1
  ensures "rest": listOK(client, client.args[1]) ==> listAt(client, client.args[1]).n == max(hadLen(client, client.args[1]) - 1, 0) &&
    forall p int {listAt(client, client.args[1]).seq[p]} :: 0 <= p < listAt(client, client.args[1]).n ==> listAt(client, client.args[1]).seq[p] == hadElem(client, client.args[1], p + 1)

func rPopCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client), client.srv.dirty, modset atList(client, client.args[1])
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], listOK(client, client.args[1]))
  ensures "nothing": !there(client, client.args[1]) || listOK(client, client.args[1]) && hadLen(client, client.args[1]) == 0 ==> answered(client, err, nullR())
  ensures "no change": !listOK(client, client.args[1]) || hadLen(client, client.args[1]) == 0 ==> client.srv.dirty == old(client.srv.dirty)
  ensures "last": listOK(client, client.args[1]) && hadLen(client, client.args[1]) > 0 ==> answered(client, err, bulkR((hadElem(client, client.args[1], hadLen(client, client.args[1]) - 1) as string))) && client.srv.dirty == old(client.srv.dirty) + 1
  ensures "rest": listOK(client, client.args[1]) ==> listAt(client, client.args[1]).n == max(hadLen(client, client.args[1]) - 1, 0) &&
    forall p int {listAt(client, client.args[1]).seq[p]} :: 0 <= p < listAt(client, client.args[1]).n ==> listAt(client, client.args[1]).seq[p] == hadElem(client, client.args[1], p)

func lLenCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], listOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, intR(0))
  ensures "length": listOK(client, client.args[1]) ==> answered(client, err, intR(listAt(client, client.args[1]).n))

func lIndexCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 3
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], listOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, nullR())
  ensures "no index": listOK(client, client.args[1]) && !isInt(client.args[2]) ==> refused(client, err)
  ensures "outside": listOK(client, client.args[1]) && isInt(client.args[2]) && !(0 <= intOf(client.args[2]) < listAt(client, client.args[1]).n) ==> answered(client, err, nullR())
  ensures "element": listOK(client, client.args[1]) && isInt(client.args[2]) && 0 <= intOf(client.args[2]) < listAt(client, client.args[1]).n ==>
    answered(client, err, bulkR((listAt(client, client.args[1]).seq[intOf(client.args[2])] as string)))

def fromTo(q *datastruct.Quicklist, a int, b int) bool = 0 <= rangeLo(q, a) <= rangeHi(q, b)

func lRangeCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 4
  modifies modset reads(client)
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && fresh(arr(strs)) && len(strs) == len(values)
  loop 1 invariant forall k int {strs[k]} :: 0 <= k <= rangeindex ==> strs[k] == (values[k] as string)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], listOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) && err is nil ==> sentArray(client, 0)
  ensures "no index": listOK(client, client.args[1]) && !(isInt(client.args[2]) && isInt(client.args[3])) ==> refused(client, err)
  ensures "nothing": listOK(client, client.args[1]) && isInt(client.args[2]) && isInt(client.args[3]) && !fromTo(listAt(client, client.args[1]), intOf(client.args[2]), intOf(client.args[3])) && err is nil ==> pushed(client, nullR()) || sentArray(client, 0)
  ensures "number": listOK(client, client.args[1]) && isInt(client.args[2]) && isInt(client.args[3]) && fromTo(listAt(client, client.args[1]), intOf(client.args[2]), intOf(client.args[3])) && err is nil ==>
    sentArray(client, rangeHi(listAt(client, client.args[1]), intOf(client.args[3])) - rangeLo(listAt(client, client.args[1]), intOf(client.args[2])) + 1)
  ensures "elements": listOK(client, client.args[1]) && isInt(client.args[2]) && isInt(client.args[3]) && fromTo(listAt(client, client.args[1]), intOf(client.args[2]), intOf(client.args[3])) && err is nil ==>
    forall i int {client.outs[i]} :: old(client.outn) < i < client.outn ==> client.outs[i] == bulkR((listAt(client, client.args[1]).seq[rangeLo(listAt(client, client.args[1]), intOf(client.args[2])) + i - old(client.outn) - 1] as string))

# Sets.
def setOK(c *Client, key string) bool = there(c, key) && valueAt(c, key) is *datastruct.Set
def setDict(c *Client, key string) *datastruct.Dict = (c.db.Dict.val[any(key)] as *datastruct.Set).dict
def badSet(c *Client, key string) bool = wasThere(c, key) && !(wasAt(c, key) is *datastruct.Set)
def hadMember(c *Client, key string, m string) bool = wasThere(c, key) && old((c.db.Dict.val[any(key)] as *datastruct.Set).dict.has[any(m)])
def hadMembers(c *Client, key string) int = wasThere(c, key) ? old((c.db.Dict.val[any(key)] as *datastruct.Set).dict.n) : 0

func sAddCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset writes(client), modset atKey(client, client.args[1], 4)
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && set != nil && any(set) == valueAt(client, client.args[1]) && there(client, client.args[1]) && 2 <= i <= len(client.args)
  loop 1 invariant "members": forall f string {set.dict.has[any(f)]} :: set.dict.has[any(f)] <==> hadMember(client, client.args[1], f) || named(client, 2, i - 2, f)
  loop 1 invariant "counted": set.dict.n == hadMembers(client, client.args[1]) + created && client.srv.dirty == old(client.srv.dirty) + i - 2
  ensures done(client, err) && placesKept() && othersKept(client, client.args[1]) && lapses(client, client.args[1]) && logged(client, client.args[1])
  ensures "wrong type": badSet(client, client.args[1]) ==> refused(client, err) && noTrace(client)
  ensures "members": !badSet(client, client.args[1]) ==> setOK(client, client.args[1]) &&
    forall f string {setDict(client, client.args[1]).has[any(f)]} :: setDict(client, client.args[1]).has[any(f)] <==> hadMember(client, client.args[1], f) || named(client, 2, len(client.args) - 2, f)
  ensures "reply": !badSet(client, client.args[1]) ==> answered(client, err, intR(setDict(client, client.args[1]).n - hadMembers(client, client.args[1]))) && client.srv.dirty > old(client.srv.dirty)

func sRemCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset reads(client), client.srv.dirty, modset atKey(client, client.args[1], 4)
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && set != nil && any(set) == valueAt(client, client.args[1]) && there(client, client.args[1]) && looked(client, client.args[1]) && 2 <= i <= len(client.args)
  loop 1 invariant "members": forall f string {set.dict.has[any(f)]} :: set.dict.has[any(f)] <==> hadMember(client, client.args[1], f) && !named(client, 2, i - 2, f)
  loop 1 invariant "counted": set.dict.n == hadMembers(client, client.args[1]) - deleted && client.srv.dirty == old(client.srv.dirty) + deleted && deleted >= 0
  loop 1 invariant "no trace": deleted == 0 ==> forall f any {set.dict.has[f]} :: set.dict.has[f] <==> old(set.dict.has[f])
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], setOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, intR(0))
  ensures "members": setOK(client, client.args[1]) ==> forall f string {setDict(client, client.args[1]).has[any(f)]} :: setDict(client, client.args[1]).has[any(f)] <==> hadMember(client, client.args[1], f) && !named(client, 2, len(client.args) - 2, f)
  ensures "reply": setOK(client, client.args[1]) ==> answered(client, err, intR(hadMembers(client, client.args[1]) - setDict(client, client.args[1]).n)) && client.srv.dirty == old(client.srv.dirty) + hadMembers(client, client.args[1]) - setDict(client, client.args[1]).n
  ensures "no trace": !setOK(client, client.args[1]) ==> client.srv.dirty == old(client.srv.dirty)

# What was removed is recorded, whichever member it was.
def lastText(c *Client) string = bulkOf(c.outs[c.outn-1])

func sPopCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client), client.srv.dirty, client.args, modset atKey(client, old(client.args[1]), 4)
  ensures done(client, err) && looked(client, old(client.args[1])) && wrongType(client, err, old(client.args[1]), setOK(client, old(client.args[1])))
  ensures "nothing": !there(client, old(client.args[1])) || setOK(client, old(client.args[1])) && hadMembers(client, old(client.args[1])) == 0 ==> answered(client, err, nullR())
  ensures "no trace": !setOK(client, old(client.args[1])) || hadMembers(client, old(client.args[1])) == 0 ==> client.srv.dirty == old(client.srv.dirty) && client.args == old(client.args)
  ensures "recorded": setOK(client, old(client.args[1])) && hadMembers(client, old(client.args[1])) > 0 ==> client.srv.dirty == old(client.srv.dirty) + 1 && len(client.args) == 3 && client.args[0] == "srem" && client.args[1] == old(client.args[1])
  ensures "member": setOK(client, old(client.args[1])) && hadMembers(client, old(client.args[1])) > 0 ==> answered(client, err, bulkR(client.args[2])) && hadMember(client, old(client.args[1]), client.args[2]) &&
    forall f string {setDict(client, old(client.args[1])).has[any(f)]} :: setDict(client, old(client.args[1])).has[any(f)] <==> hadMember(client, old(client.args[1]), f) && f != client.args[2]

func sCardCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], setOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, intR(0))
  ensures "size": setOK(client, client.args[1]) ==> answered(client, err, intR(setDict(client, client.args[1]).n))

func sIsMemberCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 3
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], setOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) ==> answered(client, err, intR(0))
  ensures "member": setOK(client, client.args[1]) ==> answered(client, err, setDict(client, client.args[1]).has[any(client.args[2])] ? intR(1) : intR(0))

# An array of distinct texts.
pred distinctTexts(c *Client) = forall i, j int {c.outs[i], c.outs[j]} :: old(c.outn) < i < j < c.outn ==> c.outs[i] != c.outs[j]
def textAt(c *Client, i int) string = bulkOf(c.outs[i])
pred sends(c *Client, f string) = exists i int {sentAt(c.outs, i)} :: old(c.outn) < i < c.outn && sentAt(c.outs, i) == bulkR(f)

func sMembersCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset reads(client)
  ensures done(client, err) && looked(client, client.args[1]) && wrongType(client, err, client.args[1], setOK(client, client.args[1]))
  ensures "missing": !there(client, client.args[1]) && err is nil ==> sentArray(client, 0)
  ensures "number": setOK(client, client.args[1]) && err is nil ==> sentArray(client, setDict(client, client.args[1]).n) && distinctTexts(client)
  ensures "members": setOK(client, client.args[1]) && err is nil ==> forall i int {client.outs[i]} :: old(client.outn) < i < client.outn ==> client.outs[i] == bulkR(textAt(client, i)) && setDict(client, client.args[1]).has[any(textAt(client, i))]
  ensures "all": setOK(client, client.args[1]) && err is nil ==> forall f string {setDict(client, client.args[1]).has[any(f)]} :: setDict(client, client.args[1]).has[any(f)] ==> sends(client, f)

# Set algebra. Reading a key may remove it because it has expired: a set that was there when the command
# started may be gone at its end, and whether the command still used it depends on the time it looked.
def hadSet(c *Client, j int) bool = old(c.db.Dict.has[any(c.args[j])])
def wasIn(c *Client, j int, f string) bool = old(c.db.Dict.has[any(c.args[j])]) && old((c.db.Dict.val[any(c.args[j])] as *datastruct.Set).dict.has[any(f)])
def isIn(c *Client, j int, f string) bool = c.db.Dict.has[any(c.args[j])] && (c.db.Dict.val[any(c.args[j])] as *datastruct.Set).dict.has[any(f)]
def textual(c *Client, j int) bool = there(c, c.args[j]) ==> valueAt(c, c.args[j]) is *datastruct.Set
pred allWereSets(c *Client) = forall j int {c.args[j]} :: 1 <= j < len(c.args) && old(c.db.Dict.has[any(c.args[j])]) ==> old(c.db.Dict.val[any(c.args[j])]) is *datastruct.Set
pred aWrongOne(c *Client) = exists j int {c.args[j]} :: 1 <= j < len(c.args) && !textual(c, j)

func sDiffCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset reads(client), comp datastruct.DictEntry.Value(e) if true
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && lapsedOnly(client) && quiet(client) && set != nil && set.dict != nil && set.dict.DictType is *database.DictType && allocated(set.dict) && (fresh(set.dict) || vkind[ref(set.dict)] == 4) && 2 <= i <= len(client.args)
  loop 1 invariant "sets so far": forall j int {client.args[j]} :: 1 <= j < i ==> textual(client, j)
  loop 1 invariant "from the first": forall f string {set.dict.has[any(f)]} :: set.dict.has[any(f)] ==> wasIn(client, 1, f) && forall j int {client.args[j]} :: 2 <= j < i ==> !isIn(client, j, f)
  loop 1 invariant "all": forall f string {set.dict.has[any(f)]} :: isIn(client, 1, f) && (forall j int {client.args[j]} :: 2 <= j < i ==> !wasIn(client, j, f)) ==> set.dict.has[any(f)]
  ensures done(client, err) && lapsedOnly(client) && quiet(client)
  ensures "wrong type": there(client, client.args[1]) && err is nil && aWrongOne(client) ==> refused(client, err)
  ensures "array": allWereSets(client) && err is nil ==> sentArray(client, client.outn - old(client.outn) - 1) && distinctTexts(client) && forall i int {client.outs[i]} :: old(client.outn) < i < client.outn ==> client.outs[i] == bulkR(textAt(client, i))
  ensures "only these": allWereSets(client) && err is nil ==> forall i int {client.outs[i]} :: old(client.outn) < i < client.outn ==> wasIn(client, 1, textAt(client, i)) && forall j int {client.args[j]} :: 2 <= j < len(client.args) ==> !isIn(client, j, textAt(client, i))
  ensures "all of them": allWereSets(client) && err is nil ==> forall f string :: isIn(client, 1, f) && (forall j int {client.args[j]} :: 2 <= j < len(client.args) ==> !wasIn(client, j, f)) ==> sends(client, f)

func sInterCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset reads(client), comp datastruct.DictEntry.Value(e) if true
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && lapsedOnly(client) && quiet(client) && set != nil && set.dict != nil && set.dict.DictType is *database.DictType && allocated(set.dict) && (fresh(set.dict) || vkind[ref(set.dict)] == 4) && 2 <= i <= len(client.args)
  loop 1 invariant "sets so far": forall j int {client.args[j]} :: 1 <= j < i ==> textual(client, j)
  loop 1 invariant "only": forall f string {set.dict.has[any(f)]} :: set.dict.has[any(f)] ==> (forall j int {client.args[j]} :: 1 <= j < i ==> wasIn(client, j, f))
  loop 1 invariant "all": forall f string {set.dict.has[any(f)]} :: (forall j int {client.args[j]} :: 1 <= j < i ==> isIn(client, j, f)) ==> set.dict.has[any(f)]
  ensures done(client, err) && lapsedOnly(client) && quiet(client)
  ensures "wrong type": err is nil && (forall j int {client.args[j]} :: 1 <= j < len(client.args) ==> there(client, client.args[j])) && aWrongOne(client) ==> refused(client, err)
  ensures "array": allWereSets(client) && err is nil ==> sentArray(client, client.outn - old(client.outn) - 1) && distinctTexts(client) && forall i int {client.outs[i]} :: old(client.outn) < i < client.outn ==> client.outs[i] == bulkR(textAt(client, i))
  ensures "only these": allWereSets(client) && err is nil ==> forall i int {client.outs[i]} :: old(client.outn) < i < client.outn ==> (forall j int {client.args[j]} :: 1 <= j < len(client.args) ==> wasIn(client, j, textAt(client, i)))
  ensures "all of them": allWereSets(client) && err is nil ==> forall f string :: (forall j int {client.args[j]} :: 1 <= j < len(client.args) ==> isIn(client, j, f)) ==> sends(client, f)

func sUnionCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) >= 3
  modifies modset reads(client), comp datastruct.DictEntry.Value(e) if true
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && lapsedOnly(client) && quiet(client) && set != nil && set.dict != nil && set.dict.DictType is *database.DictType && allocated(set.dict) && (fresh(set.dict) || vkind[ref(set.dict)] == 4) && 2 <= i <= len(client.args)
  loop 1 invariant "sets so far": forall j int {client.args[j]} :: 1 <= j < i ==> textual(client, j)
  loop 1 invariant "only": forall f string {set.dict.has[any(f)]} :: set.dict.has[any(f)] ==> (exists j int {client.args[j]} :: 1 <= j < i && wasIn(client, j, f))
  loop 1 invariant "all": forall f string :: forall j int {set.dict.has[any(f)], client.args[j]} :: 1 <= j < i && isIn(client, j, f) ==> set.dict.has[any(f)]
  ensures done(client, err) && lapsedOnly(client) && quiet(client)
  ensures "wrong type": err is nil && aWrongOne(client) ==> refused(client, err)
  ensures "array": allWereSets(client) && err is nil ==> sentArray(client, client.outn - old(client.outn) - 1) && distinctTexts(client) && forall i int {client.outs[i]} :: old(client.outn) < i < client.outn ==> client.outs[i] == bulkR(textAt(client, i))
  ensures "only these": allWereSets(client) && err is nil ==> forall i int {client.outs[i]} :: old(client.outn) < i < client.outn ==> (exists j int {client.args[j]} :: 1 <= j < len(client.args) && wasIn(client, j, textAt(client, i)))
  ensures "all of them": allWereSets(client) && err is nil ==> forall f string :: forall j int {client.args[j]} :: 1 <= j < len(client.args) && isIn(client, j, f) ==> sends(client, f)

# Connections.
func selectCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset replies(client), client.db
  ensures done(client, err) && client.srv.dirty == old(client.srv.dirty)
  ensures "selected": isInt(client.args[1]) && 0 <= intOf(client.args[1]) < len(client.srv.dbs) ==> answered(client, err, "+OK\r\n") && client.db == client.srv.dbs[intOf(client.args[1])] && client.db.ID == intOf(client.args[1])
  ensures "refused": !(isInt(client.args[1]) && 0 <= intOf(client.args[1]) < len(client.srv.dbs)) ==> refused(client, err) && client.db == old(client.db)

func authCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 2
  modifies modset replies(client), client.authenticated
  ensures done(client, err)
  ensures "permission": client.authenticated <==> client.srv.requirePassword == "" || client.srv.requirePassword == client.args[1]
  ensures "accepted": client.authenticated ==> answered(client, err, "+OK\r\n")
  ensures "refused": !client.authenticated ==> refused(client, err)

func randomGetCommand(client) (err)
  implements server.command.proc
  requires okClient(client) && len(client.args) == 1
  modifies modset reads(client)
  loop 1 invariant okKV(client) && cliOK(client) && noneOwned() && lapsedOnly(client) && quiet(client)
  ensures done(client, err) && lapsedOnly(client) && quiet(client)
  ensures "nothing": (forall k any {client.db.Dict.has[k]} :: !client.db.Dict.has[k]) ==> answered(client, err, nullR())
  ensures "a key": (exists k any {client.db.Dict.has[k]} :: client.db.Dict.has[k]) && err is nil ==> answered(client, err, bulkR(bulkOf(client.outs[client.outn-1]))) && client.db.Dict.has[any(bulkOf(client.outs[client.outn-1]))]
