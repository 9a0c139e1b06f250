package rtnet

import (
	"bufio"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"
)

// Memcached is a stand-in for a memcached server (text protocol).
type Memcached struct{ kvServer }

func NewMemcachedServer() (*Memcached, error) {
	m := &Memcached{}
	return m, m.start(m.serve)
}

func (m *Memcached) expiry(exp int64) time.Time {
	switch {
	case exp == 0:
		return time.Time{}
	case exp < 0:
		return m.now().Add(-time.Second)
	case exp <= 60*60*24*30:
		return m.now().Add(time.Duration(exp) * time.Second)
	}
	return time.Unix(exp, 0)
}

func validKey(k string) bool {
	if len(k) == 0 || len(k) > 250 {
		return false
	}
	for i := 0; i < len(k); i++ {
		if k[i] <= ' ' || k[i] == 0x7f {
			return false
		}
	}
	return true
}

func (m *Memcached) serve(c net.Conn) {
	in, out := bufio.NewReader(c), bufio.NewWriter(c)
	for {
		l, err := in.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(strings.TrimRight(l, "\r\n"))
		if len(f) == 0 {
			fmt.Fprintf(out, "ERROR\r\n")
			out.Flush()
			continue
		}
		var body string
		switch f[0] {
		case "set", "add", "replace", "append", "prepend", "cas":
			if len(f) < 5 {
				fmt.Fprintf(out, "ERROR\r\n")
				out.Flush()
				continue
			}
			n, err := strconv.Atoi(f[4])
			if err != nil || n < 0 || n > 1<<28 {
				return
			}
			b := make([]byte, n+2)
			if _, err := io.ReadFull(in, b); err != nil {
				return
			}
			body = string(b[:n])
		}
		m.mu.Lock()
		reply := m.do(f, body)
		m.mu.Unlock()
		out.WriteString(reply)
		if out.Flush() != nil {
			return
		}
	}
}

func (m *Memcached) do(f []string, body string) string {
	switch f[0] {
	case "version":
		return "VERSION 1.6.0\r\n"
	case "verbosity":
		return "OK\r\n"
	case "flush_all":
		m.data = map[string]*entry{}
		return "OK\r\n"
	}
	if len(f) < 2 {
		return "ERROR\r\n"
	}
	if m.refuse() {
		return "SERVER_ERROR injected failure\r\n"
	}
	for _, k := range f[1:2] {
		if !validKey(k) && f[0] != "gat" && f[0] != "gats" {
			return "CLIENT_ERROR bad command line format\r\n"
		}
	}
	m.cas++
	switch f[0] {
	case "get", "gets", "gat", "gats":
		keys := f[1:]
		if f[0] == "gat" || f[0] == "gats" {
			keys = f[2:]
		}
		o := ""
		for _, k := range keys {
			e := m.get(k)
			if e == nil {
				continue
			}
			if f[0] == "gat" || f[0] == "gats" {
				n, _ := strconv.ParseInt(f[1], 10, 64)
				e.until = m.expiry(n)
			}
			if strings.HasSuffix(f[0], "s") {
				o += fmt.Sprintf("VALUE %s %d %d %d\r\n%s\r\n", k, e.flags, len(e.val), e.cas, e.val)
			} else {
				o += fmt.Sprintf("VALUE %s %d %d\r\n%s\r\n", k, e.flags, len(e.val), e.val)
			}
		}
		return o + "END\r\n"
	case "set", "add", "replace", "append", "prepend", "cas":
		fl, _ := strconv.ParseUint(f[2], 10, 32)
		exp, err := strconv.ParseInt(f[3], 10, 64)
		if err != nil {
			return "CLIENT_ERROR bad command line format\r\n"
		}
		if len(body) > 1<<20 {
			delete(m.data, f[1])
			return "SERVER_ERROR object too large for cache\r\n"
		}
		old := m.get(f[1])
		e := &entry{val: body, flags: uint32(fl), cas: m.cas, until: m.expiry(exp)}
		switch f[0] {
		case "add":
			if old != nil {
				return "NOT_STORED\r\n"
			}
		case "replace":
			if old == nil {
				return "NOT_STORED\r\n"
			}
		case "append", "prepend":
			if old == nil {
				return "NOT_STORED\r\n"
			}
			e = &entry{flags: old.flags, cas: m.cas, until: old.until}
			if f[0] == "append" {
				e.val = old.val + body
			} else {
				e.val = body + old.val
			}
		case "cas":
			if len(f) < 6 {
				return "ERROR\r\n"
			}
			if old == nil {
				return "NOT_FOUND\r\n"
			}
			if strconv.FormatUint(old.cas, 10) != f[5] {
				return "EXISTS\r\n"
			}
		}
		m.data[f[1]] = e
		return "STORED\r\n"
	case "delete":
		if m.get(f[1]) == nil {
			return "NOT_FOUND\r\n"
		}
		delete(m.data, f[1])
		return "DELETED\r\n"
	case "incr", "decr":
		if len(f) < 3 {
			return "ERROR\r\n"
		}
		by, err := strconv.ParseUint(f[2], 10, 64)
		if err != nil {
			return "CLIENT_ERROR invalid numeric delta argument\r\n"
		}
		e := m.get(f[1])
		if e == nil {
			return "NOT_FOUND\r\n"
		}
		n, err := strconv.ParseUint(e.val, 10, 64)
		if err != nil {
			return "CLIENT_ERROR cannot increment or decrement non-numeric value\r\n"
		}
		if f[0] == "incr" {
			n += by
		} else if n < by {
			n = 0
		} else {
			n -= by
		}
		e.val, e.cas = strconv.FormatUint(n, 10), m.cas
		return e.val + "\r\n"
	case "touch":
		if len(f) < 3 {
			return "ERROR\r\n"
		}
		e := m.get(f[1])
		if e == nil {
			return "NOT_FOUND\r\n"
		}
		n, _ := strconv.ParseInt(f[2], 10, 64)
		e.until = m.expiry(n)
		return "TOUCHED\r\n"
	}
	return "ERROR\r\n"
}
