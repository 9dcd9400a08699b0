# Replies (server/client.go).
#
# outs[0..outn) are the pieces of the replies of a client in order, qhead the first that the socket
# has not taken completely, qpos the number of its bytes taken, pend the number of elements still due for the array reply that is open, replies
# the number of complete replies.
package server
group server

partition "container/list"

ghost Client.outs map[int]string
ghost Client.outn int
ghost Client.qhead int
ghost Client.pend int
ghost Client.replies int
ghost Client.qpos int
ghost Client.freed bool

sealed Client.replayHead, Client.sentLen, list.List.n, list.List.at, list.List.cl, list.Element.own, list.Element.idx, list.Element.Value
readonly Client.fd, Client.srv
zeroed list.Element.own

# The pieces, as RESP defines them.
def simpleR(s string) string = "+" + s + "\r\n"
def errorR(s string) string = "-ERR " + s + "\r\n"
def intR(n int) string = ":" + itoa(n) + "\r\n"
def bulkR(s string) string = "$" + itoa(len(s)) + "\r\n" + s + "\r\n"
def headR(n int) string = "*" + itoa(n) + "\r\n"
def nullR() string = "$-1\r\n"

pred oneline(s string) = forall i int {s[i]} :: 0 <= i < len(s) ==> s[i] != 13 && s[i] != 10
pred lineR(s string) = len(s) >= 3 && (s[0] == 43 || s[0] == 45 || s[0] == 58) && s[len(s)-2] == 13 && s[len(s)-1] == 10 && forall i int {s[i]} :: 1 <= i < len(s) - 2 ==> s[i] != 13 && s[i] != 10

fun isBulk(string) bool
fun headN(string) int
axiom bulkForm: forall s string {bulkR(s)} :: isBulk(bulkR(s))
axiom headForm: forall n int {headR(n)} :: headN(headR(n)) == n

pred isValue(s string) = lineR(s) || s == nullR() || isBulk(s) && len(s) >= 5 && s[0] == 36
pred isHead(s string) = headN(s) >= 0 && s == headR(headN(s))

pred queueOK(c *Client) = c.replayHead != nil && c.replayHead.cl == c && lsOK(c.replayHead) && c.replayHead.n == c.outn - c.qhead &&
  (forall i int {c.replayHead.at[i]} :: 0 <= i < c.replayHead.n ==> c.replayHead.at[i].Value is string && (c.replayHead.at[i].Value as string) == c.outs[c.qhead + i]) &&
  (forall i int {c.outs[i]} :: c.qhead <= i < c.outn ==> len(c.outs[i]) >= 1) &&
  c.sentLen == c.qpos && 0 <= c.sentLen && (c.qhead == c.outn ==> c.sentLen == 0) && (c.qhead < c.outn ==> c.sentLen < len(c.outs[c.qhead])) && c.pend >= 0

# A client with a connection: its writable event is registered while something is to be sent.
pred connOK(c *Client) = c.fd >= 0 ==> c.srv.eventLoop != nil && !c.srv.eventLoop.closed && fdOK(c.fd) && fileProcOK(fn("server.sendReplayToClient"), c.fd, any(c)) &&
  (c.outn > c.qhead ==> hasReg(c.srv.eventLoop, c.fd, 2)) &&
  (hasReg(c.srv.eventLoop, c.fd, 2) ==> c.srv.eventLoop.regProc[keyOf(c.fd, 2)] == fn("server.sendReplayToClient") && c.srv.eventLoop.regData[keyOf(c.fd, 2)] == any(c))

axiom sendProc: forall fd int :: forall d any {fileProcOK(fn("server.sendReplayToClient"), fd, d)} :: fileProcOK(fn("server.sendReplayToClient"), fd, d) <==> d is *Client && (d as *Client) != nil

pred cliOK(c *Client) = c != nil && c.srv != nil && !c.freed && queueOK(c) && connOK(c)

# What a reply changes.
modset replies(c *Client) = c.outs, c.outn, c.pend, c.replies, modset lsMoves(c.replayHead),
  comp ae.EventLoop.reg(x) if x == c.srv.eventLoop && c.fd >= 0, comp ae.EventLoop.regProc(x) if x == c.srv.eventLoop && c.fd >= 0,
  comp ae.EventLoop.regData(x) if x == c.srv.eventLoop && c.fd >= 0, epWatch

pred freshOwn(c *Client) = forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil || e.own == c.replayHead
pred onlyMine(c *Client) = forall k int {c.srv.eventLoop.reg[k]} {c.srv.eventLoop.regProc[k]} {c.srv.eventLoop.regData[k]} :: k != keyOf(c.fd, 2) ==> c.srv.eventLoop.reg[k] == old(c.srv.eventLoop.reg[k]) &&
  c.srv.eventLoop.regProc[k] == old(c.srv.eventLoop.regProc[k]) && c.srv.eventLoop.regData[k] == old(c.srv.eventLoop.regData[k])

pred pushed(c *Client, s string) = c.outn == old(c.outn) + 1 && c.outs == old(update(c.outs, c.outn, now(s)))
pred stepped(c *Client) = old(c.pend) == 0 ? c.pend == 0 && c.replies == old(c.replies) + 1 : c.pend == old(c.pend) - 1 && c.replies == old(c.replies) + (c.pend == 0 ? 1 : 0)

func (c *Client) addReply(str) (err)
  requires cliOK(c) && (isValue(str) || isHead(str) && c.pend == 0)
  modifies modset replies(c)
  on exit {
    if err is nil {
      c.outs[c.outn] = str
      c.outn = c.outn + 1
      if isValue(str) {
        if c.pend <= 1 {
          c.replies = c.replies + 1
        }
        if c.pend > 0 {
          c.pend = c.pend - 1
        }
      } else {
        if headN(str) == 0 {
          c.replies = c.replies + 1
        }
        c.pend = headN(str)
      }
    }
  }
  ensures cliOK(c) && onlyMine(c)
  ensures "queued": err is nil ==> pushed(c, str)
  ensures "value": err is nil && isValue(str) ==> stepped(c)
  ensures "array": err is nil && !isValue(str) ==> c.pend == headN(str) && c.replies == old(c.replies) + (headN(str) == 0 ? 1 : 0)
  ensures freshOwn(c)

func (c *Client) addReplySimpleString(str) (err)
  requires cliOK(c) && oneline(str)
  modifies modset replies(c)
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": err is nil ==> pushed(c, simpleR(str)) && stepped(c)

func (c *Client) addReplyBulkString(str) (err)
  requires cliOK(c)
  modifies modset replies(c)
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": err is nil ==> pushed(c, bulkR(str)) && stepped(c)

func (c *Client) addReplyInt(num) (err)
  requires cliOK(c)
  modifies modset replies(c)
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": err is nil ==> pushed(c, intR(num)) && stepped(c)


pred errorRep(s string) = lineR(s) && s[0] == 45

func (c *Client) addReplyError(err) (e)
  requires cliOK(c)
  modifies modset replies(c)
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": e is nil ==> pushed(c, c.outs[c.outn-1]) && errorRep(c.outs[c.outn-1]) && stepped(c)

func (c *Client) addReplyErrorf(format, args) (e)
  requires cliOK(c)
  modifies modset replies(c)
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": e is nil ==> pushed(c, c.outs[c.outn-1]) && errorRep(c.outs[c.outn-1]) && stepped(c)

func (c *Client) addReplyOK() (err)
  requires cliOK(c)
  modifies modset replies(c)
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": err is nil ==> pushed(c, "+OK\r\n") && stepped(c)

func (c *Client) addReplyNull() (err)
  requires cliOK(c)
  modifies modset replies(c)
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": err is nil ==> pushed(c, nullR()) && stepped(c)

# An array reply: its header, then its elements.
pred sentArray(c *Client, n int) = c.pend == 0 && c.replies == old(c.replies) + 1 && c.outn == old(c.outn) + 1 + n && c.outs[old(c.outn)] == headR(n) &&
  (forall i int {c.outs[i]} :: i < old(c.outn) || i >= c.outn ==> c.outs[i] == old(c.outs[i]))

fun bulkOf(string) string
axiom bulkInv: forall s string {bulkR(s)} :: bulkOf(bulkR(s)) == s
# sentAt(m, i) is m[i]: a name that facts about what was sent can give without asking for more of them.
fun sentAt(map[int]string, int) string
axiom sentAtDef: forall m map[int]string :: forall i int {sentAt(m, i), m[i]} :: sentAt(m, i) == m[i]

func (c *Client) addReplyArrays(strs) (err)
  requires cliOK(c) && c.pend == 0
  modifies modset replies(c)
  on exit {
    assert forall i int {sentAt(c.outs, i)} {c.outs[i]} :: sentAt(c.outs, i) == c.outs[i]
  }
  loop 1 invariant cliOK(c) && onlyMine(c) && freshOwn(c)
  loop 1 invariant c.outn == old(c.outn) + 2 + rangeindex && c.outs[old(c.outn)] == headR(len(strs)) && c.pend == len(strs) - 1 - rangeindex && c.replies == old(c.replies) + (c.pend == 0 ? 1 : 0)
  loop 1 invariant forall i int {c.outs[i]} :: i < old(c.outn) || i >= c.outn ==> c.outs[i] == old(c.outs[i])
  loop 1 invariant forall i int {c.outs[old(c.outn) + 1 + i]} :: 0 <= i <= rangeindex ==> c.outs[old(c.outn) + 1 + i] == bulkR(strs[i])
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": err is nil ==> sentArray(c, len(strs))
  ensures "elements": err is nil ==> forall i int {strs[i]} :: 0 <= i < len(strs) ==> sentAt(c.outs, old(c.outn) + 1 + i) == bulkR(strs[i])
  ensures "in order": err is nil ==> forall i int {c.outs[i]} :: old(c.outn) < i < c.outn ==> c.outs[i] == bulkR(strs[i - old(c.outn) - 1]) && bulkOf(c.outs[i]) == strs[i - old(c.outn) - 1]

func (c *Client) addReplyEmpty() (err)
  requires cliOK(c) && c.pend == 0
  modifies modset replies(c)
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": err is nil ==> sentArray(c, 0)


pred memberAt(s *datastruct.Set, r string) = r == bulkR(bulkOf(r)) && s.dict.has[any(bulkOf(r))]

func (c *Client) addReplySet(set) (err)
  requires cliOK(c) && c.pend == 0 && set != nil && set.dict != nil && set.dict.DictType is *database.DictType
  modifies modset replies(c)
  on exit {
    assert forall i int {sentAt(c.outs, i)} {c.outs[i]} :: sentAt(c.outs, i) == c.outs[i]
  }
  loop 1 invariant cliOK(c) && onlyMine(c) && freshOwn(c)
  loop 1 invariant c.outn == old(c.outn) + 2 + rangeindex && c.outs[old(c.outn)] == headR(set.dict.n) && c.pend == set.dict.n - 1 - rangeindex && c.replies == old(c.replies) + (c.pend == 0 ? 1 : 0)
  loop 1 invariant forall i int {c.outs[i]} :: i < old(c.outn) || i >= c.outn ==> c.outs[i] == old(c.outs[i])
  loop 1 invariant forall i int {c.outs[i]} :: old(c.outn) < i < c.outn ==> memberAt(set, c.outs[i])
  loop 1 invariant forall i int {c.outs[i]} :: old(c.outn) < i < c.outn ==> c.outs[i] == bulkR((rangeover[i - old(c.outn) - 1] as string))
  loop 1 invariant forall i int {rangeover[i]} :: 0 <= i <= rangeindex ==> sentAt(c.outs, old(c.outn) + 1 + i) == bulkR((rangeover[i] as string))
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "reply": err is nil ==> sentArray(c, set.dict.n)
  ensures "members": err is nil ==> forall i int {c.outs[i]} :: old(c.outn) < i < c.outn ==> memberAt(set, c.outs[i])
  ensures "once": err is nil ==> forall i, j int {c.outs[i], c.outs[j]} :: old(c.outn) < i < j < c.outn ==> c.outs[i] != c.outs[j]
  ensures "all": err is nil ==> forall f string {set.dict.has[any(f)]} :: set.dict.has[any(f)] ==> exists i int {sentAt(c.outs, i)} :: old(c.outn) < i < c.outn && sentAt(c.outs, i) == bulkR(f)

pred zElems(e []*datastruct.ZsetElement) = forall i int {e[i]} :: 0 <= i < len(e) ==> e[i] != nil
def asksScores(c *Client, i int) bool = i > 0 && len(c.args) > i
def scoresOK(c *Client, i int) bool = !asksScores(c, i) || eqFold(c.args[i], "WITHSCORES")

func (c *Client) addReplyZsetElements(elements, withScoreIndex) (err)
  requires cliOK(c) && c.pend == 0 && zElems(elements)
  modifies modset replies(c)
  loop 1 invariant cliOK(c) && onlyMine(c) && freshOwn(c)
  loop 1 invariant c.outn == old(c.outn) + 1 + (withScore ? 2 : 1) * (rangeindex + 1) && c.outs[old(c.outn)] == headR((withScore ? 2 : 1) * len(elements)) && c.pend == (withScore ? 2 : 1) * (len(elements) - 1 - rangeindex) && c.replies == old(c.replies) + (c.pend == 0 ? 1 : 0)
  loop 1 invariant forall i int {c.outs[i]} :: i < old(c.outn) || i >= c.outn ==> c.outs[i] == old(c.outs[i])
  loop 1 invariant !withScore ==> forall i int {c.outs[i]} :: old(c.outn) < i < c.outn ==> c.outs[i] == bulkR(elements[i - old(c.outn) - 1].Member)
  loop 1 invariant withScore ==> forall i int {elements[i]} :: 0 <= i <= rangeindex ==> c.outs[old(c.outn) + 1 + 2 * i] == bulkR(elements[i].Member) && c.outs[old(c.outn) + 2 + 2 * i] == bulkR(floatText(elements[i].Score))
  ensures cliOK(c) && onlyMine(c) && freshOwn(c)
  ensures "error": err is nil && !scoresOK(c, withScoreIndex) ==> pushed(c, c.outs[c.outn-1]) && errorRep(c.outs[c.outn-1]) && stepped(c)
  ensures "reply": err is nil && scoresOK(c, withScoreIndex) ==> sentArray(c, asksScores(c, withScoreIndex) ? 2 * len(elements) : len(elements))
  ensures "elements": err is nil && !asksScores(c, withScoreIndex) ==> forall i int {c.outs[i]} :: old(c.outn) < i < c.outn ==> c.outs[i] == bulkR(elements[i - old(c.outn) - 1].Member)
  ensures "elements and scores": err is nil && asksScores(c, withScoreIndex) && scoresOK(c, withScoreIndex) ==>
    forall i int {elements[i]} :: 0 <= i < len(elements) ==> c.outs[old(c.outn) + 1 + 2 * i] == bulkR(elements[i].Member) && c.outs[old(c.outn) + 2 + 2 * i] == bulkR(floatText(elements[i].Score))


# A new client has an empty queue and its own list.
func NewClient(srv, fd) (c)
  requires srv != nil && len(srv.dbs) > 0
  on exit {
    c.outn = 0
    c.qhead = 0
    c.qpos = 0
    c.pend = 0
    c.replies = 0
    c.freed = false
    c.rx = fdIn[fd]
    c.rxn = fdGiven[fd]
    c.reqAt = fdGiven[fd]
    let l = c.replayHead
    l.cl = c
  }
  ensures c != nil && fresh(c) && c.srv == srv && c.fd == fd && c.db == srv.dbs[0] && !c.authenticated && !c.freed && queueOK(c) && fresh(c.replayHead)
  ensures "its bytes": c.rx == fdIn[fd] && c.rxn == fdGiven[fd] && (fdGiven[fd] >= 0 ==> parserOK(c))
  ensures "nothing queued": c.outn == 0 && c.qhead == 0 && c.pend == 0 && c.replies == 0
  ensures "nothing read": len(c.args) == 0 && c.queryLen == 0 && c.cmdType == 0 && c.multiBulkLen == 0 && c.bulkLen == -1
  gensures forall e *list.Element {e.own} :: e != nil && fresh(e) ==> e.own == nil

# The end of a connection concerns its own descriptor only.
func (c *Client) free()
  requires c != nil && (c.srv != nil && c.fd >= 0 && c.srv.eventLoop != nil ==> !c.srv.eventLoop.closed && fdOK(c.fd))
  modifies c.freed, c.srv.clients.*, comp ae.EventLoop.reg(x) if x == c.srv.eventLoop && c.fd >= 0, epWatch, fdOpen
  on exit {
    c.freed = true
  }
  ensures c.freed
  ensures "closed": c.fd >= 0 ==> !fdOpen[c.fd]
  ensures "other descriptors": forall f int {fdOpen[f]} :: f != c.fd ==> fdOpen[f] == old(fdOpen[f])
  ensures "other events": c.srv != nil && c.fd >= 0 ==> forall k int {c.srv.eventLoop.reg[k]} :: k != keyOf(c.fd, 1) && k != keyOf(c.fd, 2) ==> c.srv.eventLoop.reg[k] == old(c.srv.eventLoop.reg[k])
  ensures "other clients": c.srv != nil ==> forall f int {has(c.srv.clients, f)} :: f != c.fd ==> (has(c.srv.clients, f) <==> old(has(c.srv.clients, f))) && c.srv.clients[f] == old(c.srv.clients[f])

# What is written is what is queued, from where the last write ended.
func sendReplayToClient(el, fd, clientData)
  requires clientData is *Client && cliOK((clientData as *Client)) && (clientData as *Client).fd == fd && fdOK(fd) && (clientData as *Client).srv.eventLoop == el
  modifies comp Client.sentLen(c) if c == (clientData as *Client), comp Client.qhead(c) if c == (clientData as *Client), comp Client.qpos(c) if c == (clientData as *Client), comp Client.freed(c) if c == (clientData as *Client),
    modset lsMoves((clientData as *Client).replayHead), comp list.Element.own(e) if e.own == (clientData as *Client).replayHead, el.reg, (clientData as *Client).srv.clients.*, epWatch, fdOpen, fdTaken
  on precall socket.FD.Write(f, p) {
    let c = (clientData as *Client)
    assert "to the client": f == c.fd
    assert "something is due": c.qhead < c.outn && c.qpos < len(c.outs[c.qhead])
    assert "length": len(p) == len(c.outs[c.qhead]) - c.qpos
    assert "bytes": forall i int {p[i]} :: 0 <= i < len(p) ==> p[i] == c.outs[c.qhead][c.qpos + i]
  }
  on call socket.FD.Write(f, p, n, err) {
    let c = (clientData as *Client)
    if err is nil {
      c.qpos = c.qpos + n
      if c.qpos == len(c.outs[c.qhead]) {
        c.qhead = c.qhead + 1
        c.qpos = 0
      }
    }
  }
  loop 1 invariant cliOK((clientData as *Client))
  loop 1 invariant forall k int {el.reg[k]} :: el.reg[k] == old(el.reg[k])
  ensures "ready or closed": (clientData as *Client).freed || cliOK((clientData as *Client))
  ensures "other events": forall k int {el.reg[k]} :: k != keyOf(fd, 1) && k != keyOf(fd, 2) ==> el.reg[k] == old(el.reg[k])
  ensures "other descriptors": forall f int {fdOpen[f]} :: f != fd ==> fdOpen[f] == old(fdOpen[f])

property C09: server.Client.addReply, server.Client.addReplySimpleString, server.Client.addReplyBulkString, server.Client.addReplyInt, server.Client.addReplyError, server.Client.addReplyErrorf, server.Client.addReplyOK, server.Client.addReplyNull, server.Client.addReplyArrays, server.Client.addReplyEmpty, server.Client.addReplySet, server.Client.addReplyZsetElements, server.NewClient
property C18: server.Client.addReply, server.Client.free, server.NewClient, server.sendReplayToClient, socket.FD.Write
