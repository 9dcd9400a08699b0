// Concrete search for counterexamples to the address properties, exported API only.
// It is laid over /repo/server with "go test -overlay"; nothing of it is in /repo.
package server_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/IfanTsai/metis/server"
	"github.com/IfanTsai/metis/socket"
)

func verifFds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range d {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}

func verifName(fd int) (string, int, error) {
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		return "", 0, err
	}
	a, ok := sa.(*syscall.SockaddrInet4)
	if !ok {
		return "", 0, fmt.Errorf("not an IPv4 socket: %T", sa)
	}
	return net.IPv4(a.Addr[0], a.Addr[1], a.Addr[2], a.Addr[3]).String(), a.Port, nil
}

func verifFreePort(r *rand.Rand) int {
	for i := 0; i < 200; i++ {
		p := 10000 + r.Intn(20000)
		if l, err := net.Listen("tcp4", fmt.Sprintf("0.0.0.0:%d", p)); err == nil {
			l.Close()
			return p
		}
	}
	return 0
}

func verifAddrCase(r *rand.Rand, note func(string, ...any)) error {
	before := verifFds()
	closeAll := func(fds ...socket.FD) {
		for _, f := range fds {
			if f >= 0 {
				_ = f.Close()
			}
		}
	}
	ip := fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(254))
	switch r.Intn(6) {
	case 0:
		ip = "0.0.0.0"
	case 1:
		ip = "127.0.0.1"
	}
	port := 0
	if r.Intn(3) > 0 {
		port = verifFreePort(r)
	}
	switch r.Intn(4) {
	case 0:
		bad := []string{"", "x", "1.2.3", "1.2.3.4.5", "256.1.1.1", "::1", "::", "fe80::1", "localhost", "1.2.3.4 ", "2001:db8::7f00:1", "127.0.0.1:80", "-1.0.0.0"}[r.Intn(13)]
		note("CreateTCPServer(%q, %d)", bad, port)
		fd, err := server.CreateTCPServer(bad, uint16(port))
		if err == nil {
			n, p, _ := verifName(int(fd))
			closeAll(fd)
			return fmt.Errorf("the address %q is accepted, bound to %s:%d", bad, n, p)
		}
		if fd >= 0 {
			return fmt.Errorf("the address %q gives an error and the descriptor %d", bad, fd)
		}
		s, err := socket.Socket(syscall.AF_INET, syscall.SOCK_STREAM)
		if err != nil {
			return nil
		}
		if err := s.Bind(bad, uint16(port)); err == nil {
			closeAll(s)
			return fmt.Errorf("Bind accepts %q", bad)
		}
		if err := s.Connect(bad, uint16(port)); err == nil {
			closeAll(s)
			return fmt.Errorf("Connect accepts %q", bad)
		}
		closeAll(s)
	case 1:
		// the port is taken, or the address is not one of this host
		l, err := net.Listen("tcp4", fmt.Sprintf("%s:%d", ip, port))
		if err != nil {
			return nil
		}
		defer l.Close()
		tp := l.Addr().(*net.TCPAddr).Port
		where := ip
		if r.Intn(3) == 0 {
			where = "203.0.113.7"
		}
		note("CreateTCPServer(%q, %d), which cannot be bound", where, tp)
		mid := verifFds()
		fd, err := server.CreateTCPServer(where, uint16(tp))
		if err == nil {
			n, p, _ := verifName(int(fd))
			closeAll(fd)
			return fmt.Errorf("%s:%d cannot be bound and there is no error, bound to %s:%d", where, tp, n, p)
		}
		if fd >= 0 {
			return fmt.Errorf("%s:%d cannot be bound, an error and the descriptor %d", where, tp, fd)
		}
		if a := verifFds(); a != mid {
			return fmt.Errorf("%d sockets before a failed CreateTCPServer, %d after it", mid, a)
		}
		return nil
	default:
		note("CreateTCPServer(%q, %d)", ip, port)
		fd, err := server.CreateTCPServer(ip, uint16(port))
		if err != nil {
			if port != 0 && strings.Contains(err.Error(), "in use") {
				return nil
			}
			return fmt.Errorf("CreateTCPServer(%q, %d): %v", ip, port, err)
		}
		defer func() { closeAll(fd) }()
		n, p, err := verifName(int(fd))
		if err != nil {
			return err
		}
		if n != ip || port != 0 && p != port || p == 0 {
			return fmt.Errorf("CreateTCPServer(%q, %d) listens on %s:%d", ip, port, n, p)
		}
		sa, err := fd.GetSockName()
		if err != nil || sa.Port != p || net.IPv4(sa.Addr[0], sa.Addr[1], sa.Addr[2], sa.Addr[3]).String() != n {
			return fmt.Errorf("GetSockName: %v %v, want %s:%d", sa, err, n, p)
		}
		to := ip
		if ip == "0.0.0.0" {
			to = fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(254))
		}
		c, err := socket.Socket(syscall.AF_INET, syscall.SOCK_STREAM)
		if err != nil {
			return nil
		}
		defer func() { closeAll(c) }()
		if r.Intn(2) == 0 {
			me := fmt.Sprintf("127.%d.%d.%d", r.Intn(256), r.Intn(256), 1+r.Intn(254))
			if err := c.Bind(me, 0); err != nil {
				return fmt.Errorf("Bind(%q, 0): %v", me, err)
			}
			if n, _, err := verifName(int(c)); err != nil || n != me {
				return fmt.Errorf("Bind(%q, 0) bound to %s (%v)", me, n, err)
			}
		}
		note("Connect(%q, %d)", to, p)
		if err := c.Connect(to, uint16(p)); err != nil {
			return fmt.Errorf("Connect(%q, %d) to a listening socket: %v", to, p, err)
		}
		peer, err := syscall.Getpeername(int(c))
		if err != nil {
			return err
		}
		pa := peer.(*syscall.SockaddrInet4)
		if g := net.IPv4(pa.Addr[0], pa.Addr[1], pa.Addr[2], pa.Addr[3]).String(); g != to || pa.Port != p {
			return fmt.Errorf("Connect(%q, %d) went to %s:%d", to, p, g, pa.Port)
		}
		a, err := fd.Accept()
		if err != nil {
			return fmt.Errorf("Accept: %v", err)
		}
		msg := []byte(fmt.Sprint("hello ", r.Int63()))
		if k, err := c.Write(msg); err != nil || k != len(msg) {
			closeAll(a)
			return fmt.Errorf("Write: %d %v", k, err)
		}
		buf := make([]byte, 100)
		k, err := a.Read(buf)
		closeAll(a)
		if err != nil || k < 0 || string(buf[:k]) != string(msg) {
			return fmt.Errorf("Read: %d %q %v, want %q", k, buf, err, msg)
		}
		closeAll(c, fd)
		c, fd = -1, -1
	}
	if after := verifFds(); after != before {
		return fmt.Errorf("%d sockets before, %d after", before, after)
	}
	return nil
}

func TestVerifC20Addr(t *testing.T) {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	ms, _ := strconv.Atoi(os.Getenv("VERIF_BUDGET_MS"))
	if ms == 0 {
		ms = 2000
	}
	if in := os.Getenv("VERIF_REPLAY_IN"); in != "" {
		b, _ := os.ReadFile(in)
		var f struct {
			Seed int64  `json:"case_seed"`
			Test string `json:"test"`
		}
		if json.Unmarshal(b, &f) != nil || f.Test != t.Name() {
			t.Skip()
		}
		if err := verifAddrCase(rand.New(rand.NewSource(f.Seed)), t.Logf); err != nil {
			t.Fatalf("reproduced: %v", err)
		}
		return
	}
	deadline := time.Now().Add(time.Duration(ms) * time.Millisecond)
	n, nt := 0, 0
	var sample []string
	for n < 200 || time.Now().Before(deadline) {
		cs := seed*1000003 + int64(n)
		var h []string
		err := verifAddrCase(rand.New(rand.NewSource(cs)), func(f string, a ...any) { h = append(h, fmt.Sprintf(f, a...)) })
		if err != nil && strings.Contains(err.Error(), "too many open files") {
			t.Skip(err)
		}
		n++
		if len(h) > 1 {
			nt++
			if sample == nil {
				sample = h
			}
		}
		if err != nil {
			b, _ := json.MarshalIndent(map[string]any{"test": t.Name(), "case_seed": cs, "message": err.Error(), "history": h}, "", " ")
			if out := os.Getenv("VERIF_REPLAY_OUT"); out != "" {
				_ = os.WriteFile(out, b, 0o644)
			}
			t.Fatalf("VERIF-FAIL %s\n%s", err, strings.Join(h, "\n"))
		}
	}
	b, _ := json.Marshal(map[string]any{"evaluations": n, "distinct_nontrivial": nt, "sample": sample, "rule": "random IPv4 loopback addresses and ports, addresses that are not IPv4, addresses and ports that cannot be bound; names of the sockets, a connection with data, and the number of open sockets"})
	if out := os.Getenv("VERIF_STATS_OUT"); out != "" {
		_ = os.WriteFile(out+"."+t.Name(), b, 0o644)
	}
}
