package rtnosql

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"verif/harness/h"
)

// mongod is a stand-in for a MongoDB server: it speaks the wire protocol and executes commands with the reference
// functions of this package.
type mongod struct {
	l    net.Listener
	addr string

	mu      sync.Mutex
	conns   map[net.Conn]bool
	colls   map[string][]bson.D
	cursors map[int64][]bson.D
	nextCur int64
	batch   func() int // size of the next batch of results
	calls   map[string]int
	fail    string // "": no; "command", "write": what the next data command reports; "close": it breaks the connection
	failFor int    // how many commands fail
	bad     string // a command that no client should send
}

func newMongod() *mongod {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		h.EnvError("no loopback port: %v", err)
	}
	m := &mongod{l: l, addr: l.Addr().String(), conns: map[net.Conn]bool{}}
	m.reset()
	go func() {
		for {
			cn, err := l.Accept()
			if err != nil {
				return
			}
			m.mu.Lock()
			m.conns[cn] = true
			m.mu.Unlock()
			go m.serve(cn)
		}
	}()
	return m
}

func (m *mongod) reset() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.colls, m.cursors, m.calls = map[string][]bson.D{}, map[int64][]bson.D{}, map[string]int{}
	m.fail, m.failFor, m.bad = "", 0, ""
	m.batch = func() int { return 101 }
}

func (m *mongod) stop() {
	m.l.Close()
	m.mu.Lock()
	defer m.mu.Unlock()
	for c := range m.conns {
		c.Close()
	}
}

func (m *mongod) serve(cn net.Conn) {
	defer func() {
		cn.Close()
		m.mu.Lock()
		delete(m.conns, cn)
		m.mu.Unlock()
	}()
	le := binary.LittleEndian
	for {
		hd := make([]byte, 16)
		if _, err := io.ReadFull(cn, hd); err != nil {
			return
		}
		body := make([]byte, int(le.Uint32(hd))-16)
		if _, err := io.ReadFull(cn, body); err != nil {
			return
		}
		var cmd bson.D
		legacy := false
		switch le.Uint32(hd[12:]) {
		case 2004: // OP_QUERY: flags, collection name, skip, number, query
			legacy = true
			p := body[4:]
			for k := range p {
				if p[k] == 0 {
					p = p[k+1+8:]
					break
				}
			}
			if bson.Unmarshal(p[:le.Uint32(p)], &cmd) != nil {
				return
			}
		case 2013: // OP_MSG: flags, sections
			for p := body[4:]; len(p) > 0; {
				kind := p[0]
				p = p[1:]
				n := int(le.Uint32(p))
				if kind == 0 {
					var d bson.D
					if bson.Unmarshal(p[:n], &d) != nil {
						return
					}
					cmd = append(d, cmd...)
				} else {
					s := p[4:n]
					name := ""
					for k := range s {
						if s[k] == 0 {
							name, s = string(s[:k]), s[k+1:]
							break
						}
					}
					var docs bson.A
					for len(s) > 0 {
						var d bson.D
						k := int(le.Uint32(s))
						if bson.Unmarshal(s[:k], &d) != nil {
							return
						}
						docs = append(docs, d)
						s = s[k:]
					}
					cmd = append(cmd, bson.E{Key: name, Value: docs})
				}
				p = p[n:]
			}
		default:
			return
		}
		r, ok := m.execute(cmd)
		if !ok {
			return
		}
		b, err := bson.Marshal(r)
		if err != nil {
			return
		}
		var out []byte
		if legacy {
			out = make([]byte, 36, 36+len(b))
			le.PutUint32(out[32:], 1)
			le.PutUint32(out[12:], 1)
		} else {
			out = make([]byte, 21, 21+len(b))
			le.PutUint32(out[12:], 2013)
		}
		out = append(out, b...)
		le.PutUint32(out, uint32(len(out)))
		copy(out[8:12], hd[4:8])
		if _, err := cn.Write(out); err != nil {
			return
		}
	}
}

func failure(code int32, msg string) bson.D {
	return bson.D{{Key: "ok", Value: 0.0}, {Key: "code", Value: code}, {Key: "errmsg", Value: msg}}
}

func (m *mongod) execute(cmd bson.D) (bson.D, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if len(cmd) == 0 {
		return nil, false
	}
	name := cmd[0].Key
	m.calls[name]++
	arg := func(k string) any { v, _ := get(cmd, k); return v }
	switch name {
	case "hello", "isMaster", "ismaster":
		return bson.D{{Key: "ismaster", Value: true}, {Key: "helloOk", Value: true}, {Key: "isWritablePrimary", Value: true}, {Key: "maxBsonObjectSize", Value: int32(16 << 20)}, {Key: "maxMessageSizeBytes", Value: int32(48000000)}, {Key: "maxWriteBatchSize", Value: int32(100000)},
			{Key: "minWireVersion", Value: int32(0)}, {Key: "maxWireVersion", Value: int32(17)}, {Key: "readOnly", Value: false}, {Key: "ok", Value: 1.0}}, true
	case "ping", "endSessions", "killCursors":
		return bson.D{{Key: "ok", Value: 1.0}}, true
	}
	if m.failFor > 0 {
		m.failFor--
		switch m.fail {
		case "close":
			return nil, false
		case "write":
			if name == "insert" || name == "update" || name == "delete" {
				return bson.D{{Key: "ok", Value: 1.0}, {Key: "n", Value: int32(0)}, {Key: "nModified", Value: int32(0)}, {Key: "writeErrors", Value: bson.A{bson.D{{Key: "index", Value: int32(0)}, {Key: "code", Value: int32(121)}, {Key: "errmsg", Value: "Document failed validation"}}}}}, true
			}
			return failure(13, "not authorized"), true
		default:
			return failure(13, "not authorized"), true
		}
	}
	key := fmt.Sprint(arg("$db"), ".", arg(name))
	docs := m.colls[key]
	var writeErrors bson.A
	werr := func(i int, code int32, msg string) {
		writeErrors = append(writeErrors, bson.D{{Key: "index", Value: int32(i)}, {Key: "code", Value: code}, {Key: "errmsg", Value: msg}})
	}
	dup := func(d bson.D) bool {
		id, _ := get(d, "_id")
		for _, e := range m.colls[key] {
			if o, _ := get(e, "_id"); eqVal(o, id) {
				return true
			}
		}
		return false
	}
	done := func(r ...bson.E) (bson.D, bool) {
		if writeErrors != nil {
			r = append(r, bson.E{Key: "writeErrors", Value: writeErrors})
		}
		return append(bson.D(r), bson.E{Key: "ok", Value: 1.0}), true
	}
	ordered := arg("ordered") != false
	number := func(v any) int { f, _ := num(v); return int(f) }
	switch name {
	case "insert":
		n := 0
		for i, x := range list(arg("documents")) {
			d := x.(bson.D)
			if _, has := get(d, "_id"); !has {
				d = append(bson.D{{Key: "_id", Value: primitive.NewObjectID()}}, d...)
			}
			if dup(d) {
				werr(i, 11000, "E11000 duplicate key error")
				if ordered {
					break
				}
				continue
			}
			m.colls[key] = append(m.colls[key], d)
			n++
		}
		return done(bson.E{Key: "n", Value: int32(n)})
	case "find":
		f, ok := arg("filter").(bson.D)
		if !ok {
			return failure(14, "filter must be a document"), true
		}
		var out []bson.D
		skip := number(arg("skip"))
		for _, d := range docs {
			if matchQuery(d, f) == yes {
				if skip > 0 {
					skip--
					continue
				}
				p, _ := arg("projection").(bson.D)
				out = append(out, project(clone(d).(bson.D), p))
			}
		}
		if l := number(arg("limit")); l > 0 && len(out) > l {
			out = out[:l]
		}
		return m.results(key, "firstBatch", out, number(arg("batchSize")), arg("singleBatch") == true), true
	case "getMore":
		id := arg("getMore").(int64)
		rest, ok := m.cursors[id]
		if !ok {
			return failure(43, "cursor not found"), true
		}
		delete(m.cursors, id)
		return m.results(fmt.Sprint(arg("$db"), ".", arg("collection")), "nextBatch", rest, number(arg("batchSize")), false), true
	case "update":
		matched, modified := 0, 0
		var upserted bson.A
		for i, x := range list(arg("updates")) {
			u := x.(bson.D)
			q, _ := get(u, "q")
			f, _ := q.(bson.D)
			upd, _ := get(u, "u")
			mod, ok := upd.(bson.D)
			multi, _ := get(u, "multi")
			ups, _ := get(u, "upsert")
			if !ok {
				m.bad = fmt.Sprint(cmd)
				werr(i, 9, "pipelines are not supported here")
				break
			}
			operators := len(mod) > 0 && mod[0].Key[0:min(1, len(mod[0].Key))] == "$"
			if multi == true && !operators {
				werr(i, 9, "multi update is not supported for replacement-style update")
				break
			}
			found, failed := false, false
			for j := range m.colls[key] {
				d := m.colls[key][j]
				if matchQuery(d, f) != yes {
					continue
				}
				found = true
				var after bson.D
				if operators {
					a, err := applyUpdate(d, mod)
					if err != nil {
						werr(i, 9, err.Error())
						failed = true
						break
					}
					after = a
				} else {
					id, _ := get(d, "_id")
					after = clone(mod).(bson.D)
					if nid, has := get(after, "_id"); !has {
						after = append(bson.D{{Key: "_id", Value: id}}, after...)
					} else if !eqVal(nid, id) {
						werr(i, 66, "the immutable field '_id' was found to have been altered")
						failed = true
						break
					}
				}
				if oid, _ := get(d, "_id"); true {
					if nid, has := get(after, "_id"); !has || !eqVal(nid, oid) {
						werr(i, 66, "the immutable field '_id' was found to have been altered")
						failed = true
						break
					}
				}
				matched++
				if !eqVal(d, after) {
					modified++
				}
				m.colls[key][j] = after
				if multi != true {
					break
				}
			}
			if failed {
				break
			}
			if !found && ups == true {
				after := bson.D{}
				for _, e := range f {
					if _, isDoc := e.Value.(bson.D); !isDoc && e.Key != "" && e.Key[0] != '$' && (operators || e.Key == "_id") {
						after = append(after, e)
					}
				}
				if operators {
					a, err := applyUpdate(after, mod)
					if err != nil {
						werr(i, 9, err.Error())
						break
					}
					after = a
				} else {
					id, had := get(after, "_id")
					after = clone(mod).(bson.D)
					if _, has := get(after, "_id"); !has && had {
						after = append(bson.D{{Key: "_id", Value: id}}, after...)
					}
				}
				if _, has := get(after, "_id"); !has {
					after = append(bson.D{{Key: "_id", Value: primitive.NewObjectID()}}, after...)
				}
				if dup(after) {
					werr(i, 11000, "E11000 duplicate key error")
					break
				}
				m.colls[key] = append(m.colls[key], after)
				id, _ := get(after, "_id")
				upserted = append(upserted, bson.D{{Key: "index", Value: int32(i)}, {Key: "_id", Value: id}})
			}
		}
		r := []bson.E{{Key: "n", Value: int32(matched + len(upserted))}, {Key: "nModified", Value: int32(modified)}}
		if upserted != nil {
			r = append(r, bson.E{Key: "upserted", Value: upserted})
		}
		return done(r...)
	case "delete":
		n := 0
		for _, x := range list(arg("deletes")) {
			q, _ := get(x.(bson.D), "q")
			f, _ := q.(bson.D)
			lim, _ := get(x.(bson.D), "limit")
			left := []bson.D{}
			gone := 0
			for _, d := range m.colls[key] {
				if matchQuery(d, f) == yes && (number(lim) == 0 || gone == 0) {
					gone++
					continue
				}
				left = append(left, d)
			}
			m.colls[key] = left
			n += gone
		}
		return done(bson.E{Key: "n", Value: int32(n)})
	}
	m.bad = fmt.Sprint(cmd)
	return failure(59, "no such command: "+name), true
}

// results gives one batch, and keeps the rest for the client to ask for.
func (m *mongod) results(ns, field string, out []bson.D, most int, single bool) bson.D {
	n := m.batch()
	if most > 0 {
		n = min(n, most)
	}
	id := int64(0)
	now := out
	if n < len(out) {
		now = out[:n]
		if !single {
			m.nextCur++
			id = m.nextCur
			m.cursors[id] = out[n:]
		}
	}
	b := bson.A{}
	for _, d := range now {
		b = append(b, d)
	}
	return bson.D{{Key: "cursor", Value: bson.D{{Key: field, Value: b}, {Key: "id", Value: id}, {Key: "ns", Value: ns}}}, {Key: "ok", Value: 1.0}}
}

// project applies a projection that names top-level fields.
func project(d, p bson.D) bson.D {
	if len(p) == 0 {
		return d
	}
	on := map[string]bool{}
	include := false
	for _, e := range p {
		v := e.Value == true
		if f, ok := num(e.Value); ok {
			v = f != 0
		}
		on[e.Key] = v
		include = include || v && e.Key != "_id"
	}
	out := bson.D{}
	for _, e := range d {
		v, named := on[e.Key]
		switch {
		case named && v, !named && !include, !named && e.Key == "_id":
			out = append(out, e)
		}
	}
	return out
}
