// Concrete search for failing inputs at the level of the running server: the real metis binary,
// built from /repo, is driven over TCP and through its append only file only.
package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type srvOpts struct {
	aof     bool
	fsync   string
	pass    string
	dbs     int
	bind    string
	pct     int
	minSize string
}

type server struct {
	o      srvOpts
	dir    string
	port   int
	cmd    *exec.Cmd
	stderr *bytes.Buffer
	mu     sync.Mutex
	exited chan struct{}
	exitEr error
	killed bool
}

var (
	binPath         string
	workDir         string
	srvSeq, portSeq int
	seqMu           sync.Mutex
)

func nextSeq() int {
	seqMu.Lock()
	defer seqMu.Unlock()
	srvSeq++
	return srvSeq
}

func nextPort() int {
	seqMu.Lock()
	defer seqMu.Unlock()
	portSeq++
	return portSeq
}

func newServer(o srvOpts) *server {
	seq := nextSeq()
	if o.bind == "" {
		// an address of its own, so that servers never meet on a port
		pid := os.Getpid()
		o.bind = fmt.Sprintf("127.%d.%d.%d", 1+(pid>>8)%250, pid%256, 1+seq%250)
	}
	if o.fsync == "" {
		o.fsync = "no"
	}
	if o.minSize == "" {
		o.minSize = "64mb"
	}
	dir := filepath.Join(workDir, fmt.Sprintf("s%d", seq))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		panic(err)
	}
	return &server{o: o, dir: dir}
}

func (s *server) aofPath() string { return filepath.Join(s.dir, "a.aof") }

type syncBuf struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (w *syncBuf) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() < 1<<20 {
		w.b.Write(p)
	}
	return len(p), nil
}

// start runs the server and waits until it answers.
func (s *server) start() error {
	var err error
	for try := 0; try < 5; try++ {
		if err = s.startOnce(); err == nil {
			return nil
		}
		if !strings.Contains(err.Error(), "address already in use") {
			return err
		}
	}
	return err
}

func (s *server) startOnce() error {
	// a port outside the ephemeral range that is free on every address
	for {
		s.port = 10000 + (os.Getpid()*131+nextPort())%20000
		l, err := net.Listen("tcp4", fmt.Sprintf("0.0.0.0:%d", s.port))
		if err == nil {
			l.Close()
			break
		}
		time.Sleep(time.Millisecond)
	}
	cfg := fmt.Sprintf("bind = %q\nport = %d\nlogfile = %q\nloglevel = \"error\"\nappendonly = %v\nappendfilename = %q\nappendfsync = %q\nauto-aof-rewrite-percentage = %d\nauto-aof-rewrite-min-size = %q\n",
		s.o.bind, s.port, filepath.Join(s.dir, "log"), s.o.aof, s.aofPath(), s.o.fsync, s.o.pct, s.o.minSize)
	if s.o.dbs > 0 {
		cfg += fmt.Sprintf("databases = %d\n", s.o.dbs)
	}
	if s.o.pass != "" {
		cfg += fmt.Sprintf("requirepass = %q\n", s.o.pass)
	}
	cf := filepath.Join(s.dir, "c.toml")
	if err := os.WriteFile(cf, []byte(cfg), 0o644); err != nil {
		return err
	}
	cmd := exec.Command(binPath, "-c", cf)
	cmd.Dir = s.dir
	cmd.Env = append(os.Environ(), "TMPDIR="+s.dir, "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
	s.stderr = &bytes.Buffer{}
	cmd.Stderr = &syncBuf{b: s.stderr}
	cmd.Stdout = cmd.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return err
	}
	s.cmd = cmd
	s.killed = false
	s.exited = make(chan struct{})
	go func(ch chan struct{}) {
		s.exitEr = cmd.Wait()
		close(ch)
	}(s.exited)
	deadline := time.Now().Add(20 * time.Second)
	var last error
	for time.Now().Before(deadline) {
		select {
		case <-s.exited:
			return fmt.Errorf("the server exited at start: %v\n%s", s.exitEr, s.tail())
		default:
		}
		c, err := net.DialTimeout("tcp", net.JoinHostPort(s.o.bind, fmt.Sprint(s.port)), time.Second)
		if err == nil {
			// one answer proves that the append only file is loaded
			_, _ = c.Write([]byte("*1\r\n$4\r\nping\r\n"))
			_ = c.SetReadDeadline(time.Now().Add(20 * time.Second))
			b := make([]byte, 64)
			n, err := c.Read(b)
			c.Close()
			if err == nil && n > 0 {
				return nil
			}
			time.Sleep(20 * time.Millisecond)
			select {
			case <-s.exited:
				return fmt.Errorf("the server exited at start: %v\n%s", s.exitEr, s.tail())
			default:
			}
			last = err
		}
		time.Sleep(3 * time.Millisecond)
	}
	if last != nil {
		return fmt.Errorf("the server does not answer PING at start: %v", last)
	}
	return fmt.Errorf("the server does not listen on %s:%d", s.o.bind, s.port)
}

func (s *server) tail() string {
	b := s.stderr.String()
	if lg, err := os.ReadFile(filepath.Join(s.dir, "log")); err == nil && len(lg) > 0 {
		if len(lg) > 1500 {
			lg = lg[len(lg)-1500:]
		}
		b += "\nlog: " + string(lg)
	}
	if len(b) > 4000 {
		b = b[:4000]
	}
	return b
}

// alive returns an error when the server has exited by itself.
func (s *server) alive() error {
	select {
	case <-s.exited:
		if !s.killed {
			return fmt.Errorf("the server exited: %v\n%s", s.exitEr, s.tail())
		}
	default:
	}
	return nil
}

func (s *server) kill() {
	if s.cmd == nil {
		return
	}
	s.killed = true
	_ = s.cmd.Process.Kill()
	<-s.exited
	// what a rewrite interrupted by the kill leaves behind is of no use
	t, _ := filepath.Glob(filepath.Join(s.dir, "temp-rewriteaof-*"))
	for _, f := range t {
		_ = os.Remove(f)
	}
}

func (s *server) close() {
	s.kill()
	if os.Getenv("VERIF_KEEP") == "" {
		_ = os.RemoveAll(s.dir)
	}
}

// ---- protocol ----

type reply struct {
	t    byte // + - : $ * and N for a null bulk
	s    string
	n    int64
	arr  []reply
	resp string
}

func (r reply) String() string {
	switch r.t {
	case 'N':
		return "(null)"
	case ':':
		return fmt.Sprintf("(int %d)", r.n)
	case '*':
		var sb strings.Builder
		sb.WriteString("[")
		for i, x := range r.arr {
			if i > 40 {
				fmt.Fprintf(&sb, " ... %d elements", len(r.arr))
				break
			}
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(x.String())
		}
		return sb.String() + "]"
	case '$':
		if len(r.s) > 120 {
			return fmt.Sprintf("%q...(%d bytes)", r.s[:100], len(r.s))
		}
		return strconv.Quote(r.s)
	}
	return string(r.t) + r.s
}

var errProto = errors.New("malformed reply")

func readLine(r *bufio.Reader) (string, error) {
	var sb []byte
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if c == '\n' {
			return "", fmt.Errorf("%w: bare LF after %q", errProto, sb)
		}
		if c == '\r' {
			d, err := r.ReadByte()
			if err != nil {
				return "", err
			}
			if d != '\n' {
				return "", fmt.Errorf("%w: CR without LF after %q", errProto, sb)
			}
			return string(sb), nil
		}
		sb = append(sb, c)
		if len(sb) > 1<<20 {
			return "", fmt.Errorf("%w: line too long", errProto)
		}
	}
}

func readReply(r *bufio.Reader, depth int) (reply, error) {
	if depth > 3 {
		return reply{}, fmt.Errorf("%w: nested too deep", errProto)
	}
	t, err := r.ReadByte()
	if err != nil {
		return reply{}, err
	}
	switch t {
	case '+', '-':
		l, err := readLine(r)
		return reply{t: t, s: l}, err
	case ':':
		l, err := readLine(r)
		if err != nil {
			return reply{}, err
		}
		n, err := strconv.ParseInt(l, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != l {
			return reply{}, fmt.Errorf("%w: integer %q", errProto, l)
		}
		return reply{t: ':', n: n}, nil
	case '$':
		l, err := readLine(r)
		if err != nil {
			return reply{}, err
		}
		n, err := strconv.Atoi(l)
		if err != nil || n < -1 || strconv.Itoa(n) != l {
			return reply{}, fmt.Errorf("%w: bulk length %q", errProto, l)
		}
		if n == -1 {
			return reply{t: 'N'}, nil
		}
		b := make([]byte, n+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return reply{}, err
		}
		if b[n] != '\r' || b[n+1] != '\n' {
			return reply{}, fmt.Errorf("%w: bulk of %d bytes ends with %q", errProto, n, b[n:])
		}
		return reply{t: '$', s: string(b[:n])}, nil
	case '*':
		l, err := readLine(r)
		if err != nil {
			return reply{}, err
		}
		n, err := strconv.Atoi(l)
		if err != nil || n < -1 || strconv.Itoa(n) != l {
			return reply{}, fmt.Errorf("%w: array length %q", errProto, l)
		}
		if n == -1 {
			return reply{t: 'N'}, nil
		}
		x := reply{t: '*'}
		for i := 0; i < n; i++ {
			e, err := readReply(r, depth+1)
			if err != nil {
				return reply{}, err
			}
			x.arr = append(x.arr, e)
		}
		return x, nil
	}
	rest := make([]byte, 40)
	_ = r.UnreadByte()
	k, _ := r.Read(rest)
	return reply{}, fmt.Errorf("%w: starts with %q", errProto, rest[:k])
}

type conn struct {
	c net.Conn
	r *bufio.Reader
}

var ioTimeout = 20 * time.Second

func (s *server) dial() (*conn, error) {
	c, err := net.DialTimeout("tcp", net.JoinHostPort(s.o.bind, fmt.Sprint(s.port)), 5*time.Second)
	if err != nil {
		return nil, err
	}
	return &conn{c, bufio.NewReaderSize(c, 1<<16)}, nil
}

func (c *conn) close() { c.c.Close() }

func encode(args []string) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "*%d\r\n", len(args))
	for _, a := range args {
		fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(a), a)
	}
	return b.Bytes()
}

func (c *conn) send(b []byte) error {
	_ = c.c.SetWriteDeadline(time.Now().Add(ioTimeout))
	_, err := c.c.Write(b)
	return err
}

func (c *conn) recv() (reply, error) {
	_ = c.c.SetReadDeadline(time.Now().Add(ioTimeout))
	return readReply(c.r, 0)
}

func (c *conn) do(args ...string) (reply, error) {
	if err := c.send(encode(args)); err != nil {
		return reply{}, err
	}
	return c.recv()
}

// pipeline sends all commands and reads all replies; writer and reader run in parallel.
func (c *conn) pipeline(cmds [][]string) ([]reply, error) {
	var buf bytes.Buffer
	for _, a := range cmds {
		buf.Write(encode(a))
	}
	ech := make(chan error, 1)
	go func() { ech <- c.send(buf.Bytes()) }()
	out := make([]reply, 0, len(cmds))
	for range cmds {
		r, err := c.recv()
		if err != nil {
			return out, fmt.Errorf("reply %d (%s): %w", len(out), show(cmds[len(out)]), err)
		}
		out = append(out, r)
	}
	return out, <-ech
}

func show(args []string) string {
	var sb strings.Builder
	for i, a := range args {
		if i > 12 {
			fmt.Fprintf(&sb, " ... %d arguments", len(args))
			break
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		if len(a) > 60 {
			fmt.Fprintf(&sb, "%q...(%d bytes)", a[:40], len(a))
		} else {
			sb.WriteString(strconv.Quote(a))
		}
	}
	return sb.String()
}

// ---- AOF file ----

// parseAOF returns the commands in an append only file.
func parseAOF(b []byte) ([][]string, error) {
	var out [][]string
	i := 0
	num := func(pfx byte) (int, error) {
		if i >= len(b) || b[i] != pfx {
			return 0, fmt.Errorf("append only file: expected %q at byte %d of %d", pfx, i, len(b))
		}
		j := bytes.Index(b[i:], []byte("\r\n"))
		if j < 0 {
			return 0, fmt.Errorf("append only file: no end of line after byte %d", i)
		}
		n, err := strconv.Atoi(string(b[i+1 : i+j]))
		if err != nil || n < 0 {
			return 0, fmt.Errorf("append only file: length %q at byte %d", b[i+1:i+j], i)
		}
		i += j + 2
		return n, nil
	}
	for i < len(b) {
		n, err := num('*')
		if err != nil {
			return out, err
		}
		var cmd []string
		for k := 0; k < n; k++ {
			l, err := num('$')
			if err != nil {
				return out, err
			}
			if i+l+2 > len(b) || b[i+l] != '\r' || b[i+l+1] != '\n' {
				return out, fmt.Errorf("append only file: argument of %d bytes at byte %d is not terminated", l, i)
			}
			cmd = append(cmd, string(b[i:i+l]))
			i += l + 2
		}
		out = append(out, cmd)
	}
	return out, nil
}
