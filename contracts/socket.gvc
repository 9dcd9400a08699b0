# Sockets (socket/socket.go, server/tcp.go).
package socket
group none

# What the kernel holds for a descriptor: whether it is open, and for a socket what it is bound to.
ghostvar fdOpen map[int]bool
ghostvar fdInet map[int]bool
ghostvar fdListening map[int]bool
ghostvar fdBound map[int]bool
ghostvar fdPort map[int]int
ghostvar fdAddr map[int]map[int]int
ghostvar fdPeer map[int]bool
ghostvar fdPeerPort map[int]int
ghostvar fdPeerAddr map[int]map[int]int
ghostvar fdReuse map[int]bool
# fdIn: the bytes that arrive on a descriptor, in order; fdGiven counts those read so far.
ghostvar fdIn map[int]map[int]int
ghostvar fdGiven map[int]int

# ip4(s): s is an IPv4 address in text form (or an IPv6 form of one); byteOf(s, i): its i-th byte.
fun ip4(string) bool
fun byteOf(string, int) int

pred boundTo(fd int, ip string, port int) = fdBound[fd] && fdPort[fd] == port && forall i int {fdAddr[fd][i]} :: 0 <= i < 4 ==> fdAddr[fd][i] == byteOf(ip, i)
pred othersOpen(fd int) = forall f int {fdOpen[f]} :: f != fd ==> fdOpen[f] == old(fdOpen[f])

func syscall.Socket(domain, typ, proto) (fd, err)
  trusted "socket(2): a new descriptor, open and bound to nothing, or an error"
  modifies fdOpen, fdInet, fdListening, fdBound, fdPeer
  ensures err is nil ==> fd >= 0 && !old(fdOpen[now(fd)]) && fdOpen[fd] && othersOpen(fd) && fdInet[fd] == (domain == 2 && typ == 1 && proto == 0) && !fdBound[fd] && !fdListening[fd]
  ensures forall f int {fdInet[f]} :: f != fd ==> fdInet[f] == old(fdInet[f])
  ensures forall f int {fdBound[f]} :: f != fd ==> fdBound[f] == old(fdBound[f])
  ensures forall f int {fdListening[f]} :: f != fd ==> fdListening[f] == old(fdListening[f])
  ensures !(err is nil) ==> forall f int {fdOpen[f]} :: fdOpen[f] == old(fdOpen[f])

func syscall.Close(fd) (err)
  trusted "close(2): the descriptor is released, also when an error is reported"
  modifies fdOpen
  ensures !fdOpen[fd] && othersOpen(fd)

func syscall.Bind(fd, sa) (err)
  trusted "bind(2): the socket gets the address given"
  requires sa is *syscall.SockaddrInet4
  modifies fdBound, fdPort, fdAddr
  ensures err is nil ==> fdBound[fd] && fdPort[fd] == (sa as *syscall.SockaddrInet4).Port && forall i int {fdAddr[fd][i]} :: 0 <= i < 4 ==> fdAddr[fd][i] == (sa as *syscall.SockaddrInet4).Addr[i]

func syscall.Connect(fd, sa) (err)
  trusted "connect(2): the socket is connected to the address given"
  requires sa is *syscall.SockaddrInet4
  modifies fdPeer, fdPeerPort, fdPeerAddr
  ensures err is nil ==> fdPeer[fd] && fdPeerPort[fd] == (sa as *syscall.SockaddrInet4).Port && forall i int {fdPeerAddr[fd][i]} :: 0 <= i < 4 ==> fdPeerAddr[fd][i] == (sa as *syscall.SockaddrInet4).Addr[i]

func syscall.Listen(fd, n) (err)
  trusted "listen(2)"
  modifies fdListening
  ensures err is nil ==> fdListening[fd]

func syscall.Accept4(fd, flags) (nfd, sa, err)
  trusted "accept4(2): a new descriptor or an error"
  modifies fdOpen, fdIn, fdGiven
  ensures err is nil ==> 0 <= nfd < 2147483648 && !old(fdOpen[now(nfd)]) && fdOpen[nfd] && othersOpen(nfd) && fdGiven[nfd] == 0
  ensures forall f int {fdGiven[f]} {fdIn[f]} :: !(err is nil) || f != nfd ==> fdGiven[f] == old(fdGiven[f]) && fdIn[f] == old(fdIn[f])
  ensures !(err is nil) ==> forall f int {fdOpen[f]} :: fdOpen[f] == old(fdOpen[f])

func syscall.SetsockoptInt(fd, level, opt, value) (err)
  trusted "setsockopt(2)"

pred mapped4(ip net.IP) = len(ip) == 16 && (forall i int {ip[i]} :: 0 <= i < 10 ==> ip[i] == 0) && ip[10] == 255 && ip[11] == 255

func net.ParseIP(s) (ip)
  trusted "net: the address a text denotes, in its 16-byte form, or nil"
  ensures (ip4(s) <==> mapped4(ip)) && (len(ip) == 16 || len(ip) == 0)
  ensures ip4(s) ==> ip[12] == byteOf(s, 0) && ip[13] == byteOf(s, 1) && ip[14] == byteOf(s, 2) && ip[15] == byteOf(s, 3)

func net.IP.To4(ip) (r)
  trusted "net: the 4-byte form of an IPv4 address, nil for others"
  requires len(ip) != 4
  ensures mapped4(ip) ==> len(r) == 4 && arr(r) != 0 && forall i int {r[i]} :: 0 <= i < 4 ==> r[i] == ip[12+i]
  ensures !mapped4(ip) ==> len(r) == 0 && arr(r) == 0

func Socket(domain, typ) (fd, err)
  modifies fdOpen, fdInet, fdListening, fdBound, fdPeer
  ensures "socket": err is nil ==> fd >= 0 && !old(fdOpen[now(fd)]) && fdOpen[fd] && othersOpen(fd) && fdInet[fd] == (domain == 2 && typ == 1) && !fdBound[fd]
  ensures "no leak": !(err is nil) ==> fd == -1 && forall f int {fdOpen[f]} :: fdOpen[f] == old(fdOpen[f])

func (fd FD) Close() (err)
  modifies fdOpen
  ensures "closed": !fdOpen[fd] && othersOpen(fd)

func (fd FD) Bind(ip, port) (err)
  modifies fdBound, fdPort, fdAddr
  ensures "bound": err is nil ==> ip4(ip) && boundTo(fd, ip, port)
  ensures "refused": !ip4(ip) ==> !(err is nil)

func (fd FD) Connect(ip, port) (err)
  modifies fdPeer, fdPeerPort, fdPeerAddr
  ensures "connected": err is nil ==> ip4(ip) && fdPeer[fd] && fdPeerPort[fd] == port && forall i int {fdPeerAddr[fd][i]} :: 0 <= i < 4 ==> fdPeerAddr[fd][i] == byteOf(ip, i)
  ensures "refused": !ip4(ip) ==> !(err is nil)

func (fd FD) Listen(backlog) (err)
  modifies fdListening
  ensures "listening": err is nil ==> fdListening[fd]

func (fd FD) Accept() (nfd, err)
  modifies fdOpen, fdIn, fdGiven
  ensures "accepted": err is nil ==> 0 <= nfd < 2147483648 && !old(fdOpen[now(nfd)]) && fdOpen[nfd] && othersOpen(nfd) && fdGiven[nfd] == 0
  ensures "other streams": forall f int {fdGiven[f]} {fdIn[f]} :: !(err is nil) || f != nfd ==> fdGiven[f] == old(fdGiven[f]) && fdIn[f] == old(fdIn[f])
  ensures "refused": !(err is nil) ==> nfd == -1 && forall f int {fdOpen[f]} :: fdOpen[f] == old(fdOpen[f])

func (fd FD) SetSockOpt(level, opt, value) (err)

# Reading and writing. fdTaken counts the bytes the kernel took for a descriptor.
ghostvar fdTaken map[int]int
pred takenElse(fd int) = forall f int {fdTaken[f]} :: f != fd ==> fdTaken[f] == old(fdTaken[f])

func syscall.Write(fd, p) (n, err)
  noalloc
  trusted "write(2): the first n bytes are taken, or an error with an errno"
  modifies fdTaken
  ensures err is nil ==> 0 <= n <= len(p) && fdTaken[fd] == old(fdTaken[fd]) + n
  ensures !(err is nil) ==> err is syscall.Errno && errCause(err) == err && fdTaken[fd] == old(fdTaken[fd])
  ensures takenElse(fd)

func (fd FD) Write(buf) (n, err)
  modifies fdTaken
  on precall syscall.Write(f, p) {
    assert "the bytes given, to the descriptor": f == fd && len(p) == len(buf) && forall i int {p[i]} :: 0 <= i < len(p) ==> p[i] == buf[i]
  }
  ensures err is nil ==> 0 <= n <= len(buf) && fdTaken[fd] == old(fdTaken[fd]) + n
  ensures !(err is nil) ==> errCause(err) is syscall.Errno && fdTaken[fd] == old(fdTaken[fd])
  ensures takenElse(fd)


pred givenElse(fd int) = forall f int {fdGiven[f]} :: f != fd ==> fdGiven[f] == old(fdGiven[f])
pred readOK(fd int, p []byte, n int) = 0 <= n <= len(p) && fdGiven[fd] == old(fdGiven[fd]) + n && forall i int {p[i]} :: 0 <= i < n ==> p[i] == fdIn[fd][old(fdGiven[fd]) + i]

func syscall.Read(fd, p) (n, err)
  noalloc
  trusted "read(2): the next n bytes that arrived, or an error with an errno"
  modifies fdGiven, comp "elem:byte"(a, i) if a == arr(p) && off(p) <= i && i < off(p) + len(p)
  ensures err is nil ==> readOK(fd, p, n)
  ensures !(err is nil) ==> err is syscall.Errno && errCause(err) == err && fdGiven[fd] == old(fdGiven[fd])
  ensures givenElse(fd)

func (fd FD) Read(buf) (n, err)
  modifies fdGiven, comp "elem:byte"(a, i) if a == arr(buf) && off(buf) <= i && i < off(buf) + len(buf)
  ensures "the next bytes": err is nil ==> readOK(fd, buf, n)
  ensures !(err is nil) ==> errCause(err) is syscall.Errno && fdGiven[fd] == old(fdGiven[fd])
  ensures givenElse(fd)

func syscall.SetNonblock(fd, b) (err)
  trusted "fcntl(2)"

func (fd FD) SetNonBlock() (err)

package server

func CreateTCPServer(ip, port) (fd, err)
  modifies fdOpen, fdInet, fdListening, fdBound, fdPort, fdAddr, fdPeer
  ensures "listens there": err is nil ==> fdOpen[fd] && fdInet[fd] && fdListening[fd] && ip4(ip) && boundTo(fd, ip, port) && !old(fdOpen[now(fd)]) && othersOpen(fd)
  ensures "no leak": !(err is nil) ==> fd == -1 && forall f int {fdOpen[f]} :: fdOpen[f] == old(fdOpen[f])

property C20: socket.Socket, socket.FD.Close, socket.FD.Bind, socket.FD.Connect, socket.FD.Listen, socket.FD.Accept, socket.FD.SetSockOpt, server.CreateTCPServer
