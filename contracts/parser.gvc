# Requests (server/resp.go, server/client.go).
#
# rx[0..rxn) are the bytes received on a connection, reqAt is where the request being read starts.
# What a request is, and which arguments it has, is a matter of the bytes from there alone.
package server
group server

ghost Client.rx map[int]int
ghost Client.rxn int
ghost Client.reqAt int

def pos(c *Client) int = c.rxn - c.queryLen
pred bufOK(c *Client) = c != nil && 0 <= c.queryLen <= len(c.queryBuf) && pos(c) >= 0 &&
  (forall i int {c.queryBuf[i]} :: 0 <= i < c.queryLen ==> c.queryBuf[i] == c.rx[pos(c) + i]) &&
  (forall q int {c.rx[q]} :: pos(c) <= q < c.rxn ==> elems(c.queryBuf)[off(c.queryBuf) + q - pos(c)] == c.rx[q])

# The number in the line at p, after its first byte.
def numText(m map[int]int, p int) string = bytes(m, p + 1, lineEnd(m, p) - p - 1)
def numAt(m map[int]int, p int) int = intOf(numText(m, p))
def noLine(m map[int]int, p int, n int) bool = indexOf(bytes(m, p, n), "\r\n") < 0

func (c *Client) getCRLFIndexFromQueryBuffer() (r)
  requires bufOK(c)
  on call bytes.Index(s, sep, r) {
    use ext(str(s), bytes(c.rx, pos(c), c.queryLen))
  }
  gensures noneOwned()
  ensures "first": r == indexOf(bytes(c.rx, pos(c), c.queryLen), "\r\n")
  ensures "end": r >= 0 ==> r + 2 <= c.queryLen && c.rx[pos(c) + r] == 13 && c.rx[pos(c) + r + 1] == 10
  ensures r >= -1

func (c *Client) getNumFromQueryBuffer(index) (n, err)
  requires bufOK(c) && 1 <= index <= c.queryLen
  on precall strconv.Atoi(s) {
    use ext(s, bytes(c.rx, pos(c) + 1, index - 1))
  }
  gensures noneOwned()
  ensures "number": err is nil <==> isInt(bytes(c.rx, pos(c) + 1, index - 1))
  ensures "value": err is nil ==> n == intOf(bytes(c.rx, pos(c) + 1, index - 1))

func (c *Client) moveToNextLineInQueryBuffer(index)
  noalloc
  requires bufOK(c) && 0 <= index && index + 2 <= c.queryLen
  modifies c.queryBuf, c.queryLen
  ensures bufOK(c) && c.queryLen == old(c.queryLen) - index - 2


# The requests in a stream. argPos(m, p, k): where the k-th argument of the array that starts at p is.
fun argPos(map[int]int, int, int) int
axiom argPosFirst: forall m map[int]int :: forall p int {argPos(m, p, 0)} :: argPos(m, p, 0) == lineEnd(m, p) + 2
axiom argPosNext manual: forall m map[int]int :: forall p, k int :: k >= 0 ==> argPos(m, p, k + 1) == lineEnd(m, argPos(m, p, k)) + numAt(m, argPos(m, p, k)) + 4

def contentAt(m map[int]int, p int) int = lineEnd(m, p) + 2
def contentText(m map[int]int, p int) string = bytes(m, lineEnd(m, p) + 2, numAt(m, p))
pred countOK(m map[int]int, p int) = hasLine(m, p) && isInt(numText(m, p)) && 0 <= numAt(m, p) <= 536870912
pred closedAt(m map[int]int, p int) = m[p] == 13 && m[p + 1] == 10
pred bulkAt(m map[int]int, p int) = m[p] == 36 && countOK(m, p) && closedAt(m, contentAt(m, p) + numAt(m, p))

# The request from p up to q has these arguments.
def inlineText(m map[int]int, p int) string = m[p] == 43 || m[p] == 45 ? bytes(m, p + 1, lineEnd(m, p) - p - 1) : bytes(m, p, lineEnd(m, p) - p)
pred inlineRequest(m map[int]int, p int, q int, a []string) = m[p] != 36 && m[p] != 42 && hasLine(m, p) && lineEnd(m, p) > p && q == lineEnd(m, p) + 2 &&
  len(a) == splitN(inlineText(m, p)) && forall i int {a[i]} :: 0 <= i < len(a) ==> a[i] == splitAt(inlineText(m, p), i)
pred bulkRequest(m map[int]int, p int, q int, a []string) = bulkAt(m, p) && numAt(m, p) > 0 && q == contentAt(m, p) + numAt(m, p) + 2 && len(a) == 1 && a[0] == contentText(m, p)
pred arrayHead(m map[int]int, p int) = m[p] == 42 && hasLine(m, p) && isInt(numText(m, p)) && 0 < numAt(m, p) <= 1048576
pred arrayUpTo(m map[int]int, p int, k int, a []string) = forall i int {argPos(m, p, i)} :: 0 <= i < k ==> a[i] == contentText(m, argPos(m, p, i)) && bulkAt(m, argPos(m, p, i))
pred arrayRequest(m map[int]int, p int, q int, a []string) = arrayHead(m, p) && len(a) == numAt(m, p) && q == argPos(m, p, len(a)) && arrayUpTo(m, p, len(a), a)
pred isRequest(m map[int]int, p int, q int, a []string) = m[p] == 36 ? bulkRequest(m, p, q, a) : m[p] == 42 ? arrayRequest(m, p, q, a) : inlineRequest(m, p, q, a)
# A blank line, an empty bulk string or array: nothing is executed.
pred isBlank(m map[int]int, p int, q int) = hasLine(m, p) && q == lineEnd(m, p) + 2 && (m[p] == 36 || m[p] == 42 ? isInt(numText(m, p)) && numAt(m, p) <= 0 && (m[p] == 36 ==> numAt(m, p) == 0) : lineEnd(m, p) == p)

# Progress in the request being read.
pred startOK(c *Client) = c.reqAt == pos(c) && len(c.args) == 0 && c.multiBulkLen == 0 && c.bulkLen == -1
pred inBulk(c *Client) = c.rx[c.reqAt] == 36 && c.multiBulkLen == 0 && len(c.args) == 0 && (c.bulkLen == -1 ? c.reqAt == pos(c) : c.bulkLen > 0 && countOK(c.rx, c.reqAt) && c.bulkLen == numAt(c.rx, c.reqAt) && pos(c) == contentAt(c.rx, c.reqAt))
def nth(c *Client) int = len(c.args) - c.multiBulkLen
def argNow(c *Client) int = argPos(c.rx, c.reqAt, nth(c))
pred inArray(c *Client) = c.rx[c.reqAt] == 42 && (c.multiBulkLen == 0 ==> startOK(c)) && (c.multiBulkLen != 0 ==> inArguments(c))
pred inArguments(c *Client) = arrayHead(c.rx, c.reqAt) && len(c.args) == numAt(c.rx, c.reqAt) && 0 < c.multiBulkLen <= len(c.args) && arrayUpTo(c.rx, c.reqAt, nth(c), c.args) &&
  (c.bulkLen == -1 ==> pos(c) == argNow(c)) && (c.bulkLen != -1 ==> c.rx[argNow(c)] == 36 && countOK(c.rx, argNow(c)) && c.bulkLen == numAt(c.rx, argNow(c)) && pos(c) == contentAt(c.rx, argNow(c)))

pred parserOK(c *Client) = bufOK(c) && c.reqAt >= 0 && 0 <= c.cmdType <= 3 && (c.cmdType <= 1 ==> startOK(c)) && (c.cmdType == 1 ==> c.queryLen > 0 && c.rx[c.reqAt] != 36 && c.rx[c.reqAt] != 42) &&
  (c.cmdType == 2 ==> inBulk(c) && (c.bulkLen == -1 ==> c.queryLen > 0)) && (c.cmdType == 3 ==> inArray(c) && (c.multiBulkLen == 0 ==> c.queryLen > 0))

# What there is does not make up the line, or the content, that is being read.
pred lacking(c *Client) = c.bulkLen == -1 ? noLine(c.rx, pos(c), c.queryLen) && c.queryLen <= 65536 : c.queryLen < c.bulkLen + 2
# The line at p is too long.
pred tooLong(c *Client, p int) = p + 65536 < c.rxn && noLine(c.rx, p, c.rxn - p)

func processInlineBuffer(client) (ok, err)
  requires parserOK(client) && client.cmdType == 1
  modifies client.args, client.queryBuf, client.queryLen
  on precall strings.Split(s) {
    use ext(s, inlineText(client.rx, client.reqAt))
  }
  gensures noneOwned()
  ensures bufOK(client) && client.queryLen <= old(client.queryLen)
  ensures "request": ok ==> err is nil && (len(client.args) == 0 ? isBlank(client.rx, client.reqAt, pos(client)) : isRequest(client.rx, client.reqAt, pos(client), client.args))
  ensures "waiting": !ok && err is nil ==> parserOK(client) && lacking(client) && client.args == old(client.args)
  ensures "malformed": !(err is nil) ==> !ok && tooLong(client, client.reqAt)
  ensures "arguments": client.args == old(client.args) || fresh(arr(client.args))

func processBulkBuffer(client) (ok, err)
  requires parserOK(client) && client.cmdType == 2
  modifies client.args, client.queryBuf, client.queryLen, client.bulkLen, comp "elem:string"(a, i) if a == arr(client.args) && a != 0
  on store "elem:string"(a, i, v) {
    use ext(v, contentText(client.rx, client.reqAt))
  }
  gensures noneOwned()
  ensures bufOK(client) && client.queryLen <= old(client.queryLen)
  ensures "request": ok ==> err is nil && (len(client.args) == 0 ? isBlank(client.rx, client.reqAt, pos(client)) : isRequest(client.rx, client.reqAt, pos(client), client.args) && client.bulkLen == -1)
  ensures "waiting": !ok && err is nil ==> parserOK(client) && lacking(client)
  ensures "malformed": !(err is nil) ==> !ok && (tooLong(client, client.reqAt) || hasLine(client.rx, client.reqAt) && !bulkAt(client.rx, client.reqAt))
  ensures "arguments": client.args == old(client.args) || arr(client.args) == old(arr(client.args)) || fresh(arr(client.args))

func processMultiBulkBuffer(client) (ok, err)
  requires parserOK(client) && client.cmdType == 3
  modifies client.args, client.queryBuf, client.queryLen, client.bulkLen, client.multiBulkLen, comp "elem:string"(a, i) if a == arr(client.args) && a != 0
  on store "elem:string"(a, i, v) {
    use ext(v, contentText(client.rx, argNow(client)))
    use argPosNext(client.rx, client.reqAt, nth(client))
    assert "next": bulkAt(client.rx, argNow(client))
    assert "content": v == contentText(client.rx, argNow(client)) && i == off(client.args) + nth(client) && a == arr(client.args)
  }
  loop 1 invariant bufOK(client) && client.queryLen <= old(client.queryLen) && client.rx[client.reqAt] == 42 && len(client.args) > 0 && (client.multiBulkLen == 0 ? arrayRequest(client.rx, client.reqAt, pos(client), client.args) && client.bulkLen == -1 : inArguments(client)) && noneOwned()
  gensures noneOwned()
  ensures bufOK(client) && client.queryLen <= old(client.queryLen)
  ensures "request": ok ==> err is nil && (len(client.args) == 0 ? isBlank(client.rx, client.reqAt, pos(client)) : isRequest(client.rx, client.reqAt, pos(client), client.args) && client.bulkLen == -1 && client.multiBulkLen == 0)
  ensures "waiting": !ok && err is nil ==> parserOK(client) && lacking(client)
  ensures "malformed": !(err is nil) ==> !ok && (tooLong(client, client.reqAt) || hasLine(client.rx, client.reqAt) && (!arrayHead(client.rx, client.reqAt) || tooLong(client, argNow(client)) || hasLine(client.rx, argNow(client)) && !bulkAt(client.rx, argNow(client)) && 0 <= nth(client) < numAt(client.rx, client.reqAt) && arrayUpTo(client.rx, client.reqAt, nth(client), client.args)))
  ensures "arguments": client.args == old(client.args) || arr(client.args) == old(arr(client.args)) || fresh(arr(client.args))

func (c *Client) reset()
  noalloc
  requires c != nil
  modifies c.cmdType, c.args, c.multiBulkLen, c.bulkLen
  ensures "ready for the next": c.cmdType == 0 && len(c.args) == 0 && c.multiBulkLen == 0 && c.bulkLen == -1
  ensures "arguments": arr(c.args) == 0 || arr(c.args) == old(arr(c.args))

# Everything a client may change by its requests.
pred inPlace(r int) = vkind[r] >= 1
modset serves(c *Client) = modset replies(c), modset feeds(c.srv), comp datastruct.DictEntry.Value(e) if true, c.srv.dirty, c.lapsed, c.at, c.args, c.db, c.authenticated,
  c.ran, c.logged, c.loggedDB, c.changes, c.n2, c.cmdType, c.multiBulkLen, c.bulkLen, c.queryBuf, c.queryLen, c.reqAt, c.broken, comp "elem:string"(a, i) if a == arr(c.args) && a != 0,
  comp datastruct.Dict.has(d) if inPlace(ref(d)), comp datastruct.Dict.val(d) if inPlace(ref(d)), comp datastruct.Dict.key(d) if inPlace(ref(d)),
  comp datastruct.Dict.n(d) if inPlace(ref(d)), comp datastruct.Dict.ver(d) if inPlace(ref(d)),
  comp datastruct.Quicklist.seq(q) if inPlace(ref(q)), comp datastruct.Quicklist.n(q) if inPlace(ref(q)), comp datastruct.Quicklist.ver(q) if inPlace(ref(q))

# broken: a malformed request was met, or a reply could not be queued.
ghost Client.broken bool

func processInputBuffer(client) (err)
  requires okClient(client) && parserOK(client)
  modifies modset serves(client)
  on entry {
    client.broken = false
  }
  on call server.processInlineBuffer(c, ok, e) {
    client.broken = !(e is nil)
  }
  on call server.processBulkBuffer(c, ok, e) {
    client.broken = !(e is nil)
  }
  on call server.processMultiBulkBuffer(c, ok, e) {
    client.broken = !(e is nil)
  }
  on precall server.processCommand(c) {
    assert "decoded": c == client && isRequest(c.rx, c.reqAt, pos(c), c.args)
  }
  on call server.processCommand(c, e) {
    client.reqAt = pos(client)
    client.broken = !(e is nil)
  }
  on precall server.Client.reset(c) {
    assert "blank": isBlank(c.rx, c.reqAt, pos(c))
  }
  on call server.Client.reset(c) {
    client.reqAt = pos(client)
  }
  loop 1 invariant "client": okClient(client)
  loop 1 invariant "parser": parserOK(client)
  loop 1 invariant "registrations": onlyMine(client)
  loop 1 invariant "queue": freshOwn(client)
  loop 1 invariant "places": placesKept()
  loop 1 invariant "arguments": arr(client.args) == old(arr(client.args)) || arr(client.args) == 0 || fresh(arr(client.args))
  loop 1 invariant clock >= old(clock) && !client.broken
  ensures "client": cliOK(client) && okKV(client)
  ensures "registrations": onlyMine(client)
  ensures "queue": freshOwn(client)
  ensures "places": placesKept() && clock >= old(clock)
  ensures "reported": err is nil <==> !client.broken
  ensures "as far as possible": err is nil ==> okClient(client) && parserOK(client)
  ensures "waiting": err is nil && client.queryLen > 0 ==> lacking(client)

# Reading from a connection. Between two events a client is ready, and has received what was read from its descriptor.
axiom readProc: forall fd int :: forall d any {fileProcOK(fn("server.readQueryFromClient"), fd, d)} :: fileProcOK(fn("server.readQueryFromClient"), fd, d) <==> d is *Client && (d as *Client) != nil

pred receives(c *Client) = c.rxn == fdGiven[c.fd] && c.rxn >= 0 && forall q int {c.rx[q]} :: c.rx[q] == fdIn[c.fd][q]

func readQueryFromClient(el, fd, clientData)
  requires clientData is *Client && okClient((clientData as *Client)) && parserOK((clientData as *Client)) && receives((clientData as *Client)) && (clientData as *Client).fd == fd && fdOK(fd) && (clientData as *Client).srv.eventLoop == el
  modifies modset serves((clientData as *Client)), comp "elem:byte"(a, i) if a == arr((clientData as *Client).queryBuf), fdGiven, fdOpen,
    comp Client.rxn(c) if c == (clientData as *Client), comp Client.freed(c) if c == (clientData as *Client), (clientData as *Client).srv.clients.*, el.reg, epWatch
  on precall socket.FD.Read(f, p) {
    let c = (clientData as *Client)
    assert "where the next bytes belong": f == c.fd && len(p) > 0 && arr(p) == arr(c.queryBuf) && off(p) == off(c.queryBuf) + c.queryLen && len(p) == len(c.queryBuf) - c.queryLen
  }
  on call socket.FD.Read(f, p, n, err) {
    let c = (clientData as *Client)
    if err is nil {
      assert "old": forall i int {c.queryBuf[i]} :: 0 <= i < c.queryLen ==> c.queryBuf[i] == c.rx[pos(c) + i]
      assert "new": forall i int {c.queryBuf[i]} :: c.queryLen <= i < c.queryLen + n ==> c.queryBuf[i] == c.rx[pos(c) + i]
      c.rxn = c.rxn + n
    }
  }
  ensures "ready or closed": !(clientData as *Client).freed ==> okClient((clientData as *Client)) && parserOK((clientData as *Client)) && receives((clientData as *Client))
  ensures "other events": forall k int {el.reg[k]} :: k != keyOf(fd, 1) && k != keyOf(fd, 2) ==> el.reg[k] == old(el.reg[k])
  ensures "other descriptors": forall f int {fdOpen[f]} :: f != fd ==> fdOpen[f] == old(fdOpen[f])

# A new connection gets a client of its own, which nothing was read for, or is closed.
ghost Server.latest *Client

func acceptTCPHandler(el, fd, extra)
  requires extra is *Server && kvOK((extra as *Server)) && (extra as *Server).clients != nil && el != nil && !el.closed && (extra as *Server).eventLoop == el
  requires "nothing registered for what is closed": forall f int {fdOpen[f]} :: !fdOpen[f] ==> !hasReg(el, f, 1) && !hasReg(el, f, 2)
  modifies fdOpen, fdIn, fdGiven, el.reg, el.regProc, el.regData, epWatch, (extra as *Server).clients.*, comp Server.latest(s) if s == (extra as *Server)
  on entry {
    let s = (extra as *Server)
    s.latest = nil
  }
  on call server.NewClient(s, f, c) {
    s.latest = c
  }
  ensures "its own client": (extra as *Server).latest != nil && !(extra as *Server).latest.freed ==> fresh((extra as *Server).latest) && serving((extra as *Server), (extra as *Server).latest, el) && !old(fdOpen[now((extra as *Server).latest.fd)])
  ensures "other connections": forall f int {fdOpen[f]} :: old(fdOpen[f]) ==> fdOpen[f]
  ensures "closed otherwise": (extra as *Server).latest == nil || (extra as *Server).latest.freed ==> forall f int {fdOpen[f]} :: fdOpen[f] <==> old(fdOpen[f])

pred serving(s *Server, c *Client, el *ae.EventLoop) = c.srv == s && okClient(c) && parserOK(c) && receives(c) && c.db == s.dbs[0] && !c.authenticated && s.clients[c.fd] == c &&
  hasReg(el, c.fd, 1) && el.regProc[keyOf(c.fd, 1)] == fn("server.readQueryFromClient") && el.regData[keyOf(c.fd, 1)] == any(c)
