// Package rtnet checks the clients of external backends against stand-in servers on the loopback
// interface: the protocols and the documented behaviour of Redis, Memcached and RabbitMQ as far as
// a client of a cache or queue needs them.
package rtnet

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// what a server stores under a key; the zero time means for ever
type entry struct {
	val   string
	flags uint32
	cas   uint64
	until time.Time
}

// kvServer is what the Redis and Memcached stand-ins share.
type kvServer struct {
	mu    sync.Mutex
	data  map[string]*entry
	skew  time.Duration // how far the server's clock has been moved
	cas   uint64
	fail  int // the next commands to be refused, after `after` others
	after int
	cmds  int
	lis   net.Listener
	conns map[net.Conn]bool
	gone  bool
}

func (s *kvServer) now() time.Time { return time.Now().Add(s.skew) }

func (s *kvServer) start(serve func(net.Conn)) error {
	s.data, s.conns = map[string]*entry{}, map[net.Conn]bool{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return err
	}
	s.lis = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			if s.gone {
				c.Close()
			} else {
				s.conns[c] = true
			}
			s.mu.Unlock()
			go func() {
				serve(c)
				c.Close()
				s.mu.Lock()
				delete(s.conns, c)
				s.mu.Unlock()
			}()
		}
	}()
	return nil
}

func (s *kvServer) Addr() string { return s.lis.Addr().String() }

// Stop closes the server and all its connections.
func (s *kvServer) Stop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.gone = true
	s.lis.Close()
	for c := range s.conns {
		c.Close()
	}
}

// Reset forgets everything stored and pending.
func (s *kvServer) Reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.data, s.skew, s.fail, s.after = map[string]*entry{}, 0, 0, 0
}

// Pass lets time go by for the server.
func (s *kvServer) Pass(d time.Duration) {
	s.mu.Lock()
	s.skew += d
	s.mu.Unlock()
}

// FailNext makes the server refuse one command, after serving `after` others.
func (s *kvServer) FailNext(after int) {
	s.mu.Lock()
	s.fail, s.after = 1, after
	s.mu.Unlock()
}

// Pending reports whether the refusal has not happened yet, and clears it.
func (s *kvServer) Pending() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	p := s.fail > 0
	s.fail, s.after = 0, 0
	return p
}

// refuse reports whether the current command is to be refused. Called with the lock held.
func (s *kvServer) refuse() bool {
	s.cmds++
	if s.fail > 0 {
		if s.after > 0 {
			s.after--
			return false
		}
		s.fail--
		return true
	}
	return false
}

func (s *kvServer) get(k string) *entry {
	e := s.data[k]
	if e != nil && !e.until.IsZero() && !s.now().Before(e.until) {
		delete(s.data, k)
		return nil
	}
	return e
}

// Redis is a stand-in for a redis server.
type Redis struct{ kvServer }

func NewRedis() (*Redis, error) {
	r := &Redis{}
	return r, r.start(r.serve)
}

func readRESP(r *bufio.Reader) ([]string, error) {
	l, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	l = strings.TrimRight(l, "\r\n")
	if !strings.HasPrefix(l, "*") {
		return strings.Fields(l), nil
	}
	n, err := strconv.Atoi(l[1:])
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		m, err := strconv.Atoi(strings.TrimRight(h, "\r\n")[1:])
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		args = append(args, string(b[:m]))
	}
	return args, nil
}

func bulk(s string) string { return fmt.Sprintf("$%d\r\n%s\r\n", len(s), s) }

const nilBulk = "$-1\r\n"

func (r *Redis) serve(c net.Conn) {
	in, out := bufio.NewReader(c), bufio.NewWriter(c)
	var multi [][]string
	inMulti := false
	for {
		args, err := readRESP(in)
		if err != nil {
			return
		}
		if len(args) == 0 {
			continue
		}
		cmd := strings.ToUpper(args[0])
		r.mu.Lock()
		switch {
		case cmd == "MULTI":
			inMulti, multi = true, nil
			out.WriteString("+OK\r\n")
		case cmd == "DISCARD":
			inMulti = false
			out.WriteString("+OK\r\n")
		case cmd == "EXEC":
			inMulti = false
			fmt.Fprintf(out, "*%d\r\n", len(multi))
			for _, a := range multi {
				out.WriteString(r.do(a))
			}
		case inMulti:
			multi = append(multi, args)
			out.WriteString("+QUEUED\r\n")
		default:
			out.WriteString(r.do(args))
		}
		r.mu.Unlock()
		if in.Buffered() == 0 {
			if out.Flush() != nil {
				return
			}
		}
	}
}

func (r *Redis) do(args []string) string {
	cmd, a := strings.ToUpper(args[0]), args[1:]
	arity := map[string]int{"GET": 1, "SET": 2, "INCR": 1, "DECR": 1, "INCRBY": 2, "DECRBY": 2, "DEL": 1, "UNLINK": 1, "MGET": 1, "MSET": 2, "SETNX": 2, "GETSET": 2, "EXISTS": 1, "EXPIRE": 2, "TTL": 1, "STRLEN": 1, "APPEND": 2, "GETDEL": 1, "SETEX": 3, "PSETEX": 3, "MSETNX": 2}
	if n, ok := arity[cmd]; ok {
		if len(a) < n {
			return "-ERR wrong number of arguments for '" + strings.ToLower(cmd) + "' command\r\n"
		}
		if r.refuse() {
			return "-ERR injected failure\r\n"
		}
	}
	incr := func(by int64) string {
		e := r.get(a[0])
		n := int64(0)
		if e != nil {
			var err error
			if n, err = strconv.ParseInt(e.val, 10, 64); err != nil || strings.HasPrefix(e.val, "+") {
				return "-ERR value is not an integer or out of range\r\n"
			}
		} else {
			e = &entry{}
		}
		if (by > 0 && n > 1<<63-1-by) || (by < 0 && n < -1<<63-by) {
			return "-ERR increment or decrement would overflow\r\n"
		}
		e.val = strconv.FormatInt(n+by, 10)
		r.data[a[0]] = e
		return fmt.Sprintf(":%d\r\n", n+by)
	}
	switch cmd {
	case "PING":
		return "+PONG\r\n"
	case "SELECT", "AUTH", "CLIENT", "READONLY":
		return "+OK\r\n"
	case "GET":
		if e := r.get(a[0]); e != nil {
			return bulk(e.val)
		}
		return nilBulk
	case "GETDEL":
		e := r.get(a[0])
		delete(r.data, a[0])
		if e != nil {
			return bulk(e.val)
		}
		return nilBulk
	case "GETSET":
		e := r.get(a[0])
		r.data[a[0]] = &entry{val: a[1]}
		if e != nil {
			return bulk(e.val)
		}
		return nilBulk
	case "SETEX", "PSETEX":
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil || n <= 0 {
			return "-ERR invalid expire time\r\n"
		}
		d := time.Second
		if cmd == "PSETEX" {
			d = time.Millisecond
		}
		r.data[a[0]] = &entry{val: a[2], until: r.now().Add(time.Duration(n) * d)}
		return "+OK\r\n"
	case "SET":
		e := &entry{val: a[1]}
		old := r.get(a[0])
		for i := 2; i < len(a); i++ {
			switch o := strings.ToUpper(a[i]); o {
			case "NX":
				if old != nil {
					return nilBulk
				}
			case "XX":
				if old == nil {
					return nilBulk
				}
			case "KEEPTTL":
				if old != nil {
					e.until = old.until
				}
			case "EX", "PX":
				i++
				if i >= len(a) {
					return "-ERR syntax error\r\n"
				}
				n, err := strconv.ParseInt(a[i], 10, 64)
				if err != nil || n <= 0 {
					return "-ERR invalid expire time\r\n"
				}
				d := time.Second
				if o == "PX" {
					d = time.Millisecond
				}
				e.until = r.now().Add(time.Duration(n) * d)
			default:
				return "-ERR syntax error\r\n"
			}
		}
		r.data[a[0]] = e
		return "+OK\r\n"
	case "SETNX":
		if r.get(a[0]) != nil {
			return ":0\r\n"
		}
		r.data[a[0]] = &entry{val: a[1]}
		return ":1\r\n"
	case "MGET":
		o := fmt.Sprintf("*%d\r\n", len(a))
		for _, k := range a {
			if e := r.get(k); e != nil {
				o += bulk(e.val)
			} else {
				o += nilBulk
			}
		}
		return o
	case "MSET", "MSETNX":
		if len(a)%2 != 0 {
			return "-ERR wrong number of arguments for MSET\r\n"
		}
		if cmd == "MSETNX" {
			for i := 0; i < len(a); i += 2 {
				if r.get(a[i]) != nil {
					return ":0\r\n"
				}
			}
		}
		for i := 0; i < len(a); i += 2 {
			r.data[a[i]] = &entry{val: a[i+1]}
		}
		if cmd == "MSETNX" {
			return ":1\r\n"
		}
		return "+OK\r\n"
	case "DEL", "UNLINK", "EXISTS":
		n := 0
		for _, k := range a {
			if r.get(k) != nil {
				n++
				if cmd != "EXISTS" {
					delete(r.data, k)
				}
			}
		}
		return fmt.Sprintf(":%d\r\n", n)
	case "INCR":
		return incr(1)
	case "DECR":
		return incr(-1)
	case "INCRBY", "DECRBY":
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		if cmd == "DECRBY" {
			n = -n
		}
		return incr(n)
	case "EXPIRE":
		n, err := strconv.ParseInt(a[1], 10, 64)
		if err != nil {
			return "-ERR value is not an integer or out of range\r\n"
		}
		e := r.get(a[0])
		if e == nil {
			return ":0\r\n"
		}
		e.until = r.now().Add(time.Duration(n) * time.Second)
		return ":1\r\n"
	case "TTL":
		e := r.get(a[0])
		if e == nil {
			return ":-2\r\n"
		}
		if e.until.IsZero() {
			return ":-1\r\n"
		}
		return fmt.Sprintf(":%d\r\n", int64(e.until.Sub(r.now()).Seconds()))
	case "STRLEN":
		if e := r.get(a[0]); e != nil {
			return fmt.Sprintf(":%d\r\n", len(e.val))
		}
		return ":0\r\n"
	case "APPEND":
		e := r.get(a[0])
		if e == nil {
			e = &entry{}
			r.data[a[0]] = e
		}
		e.val += a[1]
		return fmt.Sprintf(":%d\r\n", len(e.val))
	case "FLUSHDB", "FLUSHALL":
		r.data = map[string]*entry{}
		return "+OK\r\n"
	}
	return "-ERR unknown command '" + args[0] + "'\r\n"
}
