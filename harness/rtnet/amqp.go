package rtnet

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
)

// Broker is a stand-in for a RabbitMQ server: the part of AMQP 0-9-1 that clients of queues use. It
// supports the default exchange, consumers (handed messages in turn), prefetch limits, acks, gets and
// publisher confirms.
type Broker struct {
	mu        sync.Mutex
	lis       net.Listener
	queues    map[string]*bqueue
	conns     map[*bconn]bool
	gone      bool
	Published int
}

type bmsg struct {
	props      []byte // property flags and list of the content header
	body       []byte
	exch, key  string
	redelivery bool
}

type bqueue struct {
	name      string
	msgs      []*bmsg
	consumers []*bconsumer
	next      int
}

type bconsumer struct {
	q     *bqueue
	ch    *bchan
	tag   string
	noAck bool
}

type bchan struct {
	c        *bconn
	id       uint16
	tag      uint64
	unacked  map[uint64]unacked
	prefetch int
	confirm  bool
	pubs     uint64
	cons     map[string]*bconsumer
	// a message being published
	exch, key string
	pub       *bmsg
	want      uint64
}

type unacked struct {
	q *bqueue
	m *bmsg
	c *bconsumer
}

type bconn struct {
	b    *Broker
	net  net.Conn
	out  *bufio.Writer
	chs  map[uint16]*bchan
	dead bool
}

func NewBroker() (*Broker, error) {
	b := &Broker{queues: map[string]*bqueue{}, conns: map[*bconn]bool{}}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	b.lis = l
	go func() {
		for {
			n, err := l.Accept()
			if err != nil {
				return
			}
			c := &bconn{b: b, net: n, out: bufio.NewWriter(n), chs: map[uint16]*bchan{}}
			b.mu.Lock()
			if b.gone {
				n.Close()
			} else {
				b.conns[c] = true
			}
			b.mu.Unlock()
			go c.serve()
		}
	}()
	return b, nil
}

func (b *Broker) Addr() string { return b.lis.Addr().String() }

func (b *Broker) Stop() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.gone = true
	b.lis.Close()
	for c := range b.conns {
		c.net.Close()
	}
}

// Drop closes the connections of all clients.
func (b *Broker) Drop() {
	b.mu.Lock()
	defer b.mu.Unlock()
	for c := range b.conns {
		c.net.Close()
	}
}

// Waiting is the number of messages in the queue that no client has been given.
func (b *Broker) Waiting(q string) int {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.queues[q] == nil {
		return 0
	}
	return len(b.queues[q].msgs)
}

// ---- encoding

type enc struct{ bytes.Buffer }

func (e *enc) u8(n byte)    { e.WriteByte(n) }
func (e *enc) u16(n uint16) { binary.Write(e, binary.BigEndian, n) }
func (e *enc) u32(n uint32) { binary.Write(e, binary.BigEndian, n) }
func (e *enc) u64(n uint64) { binary.Write(e, binary.BigEndian, n) }
func (e *enc) short(s string) {
	e.u8(byte(len(s)))
	e.WriteString(s)
}
func (e *enc) long(s string) {
	e.u32(uint32(len(s)))
	e.WriteString(s)
}
func method(class, id uint16) *enc {
	e := &enc{}
	e.u16(class)
	e.u16(id)
	return e
}

type dec struct{ *bytes.Reader }

func (d dec) u8() byte    { b, _ := d.ReadByte(); return b }
func (d dec) u16() uint16 { var n uint16; binary.Read(d, binary.BigEndian, &n); return n }
func (d dec) u32() uint32 { var n uint32; binary.Read(d, binary.BigEndian, &n); return n }
func (d dec) u64() uint64 { var n uint64; binary.Read(d, binary.BigEndian, &n); return n }
func (d dec) short() string {
	b := make([]byte, d.u8())
	io.ReadFull(d, b)
	return string(b)
}

func (c *bconn) frame(typ byte, ch uint16, payload []byte) {
	var h [7]byte
	h[0] = typ
	binary.BigEndian.PutUint16(h[1:], ch)
	binary.BigEndian.PutUint32(h[3:], uint32(len(payload)))
	c.out.Write(h[:])
	c.out.Write(payload)
	c.out.WriteByte(0xCE)
}

func (c *bconn) send(ch uint16, m *enc) { c.frame(1, ch, m.Bytes()) }

func (c *bconn) content(ch uint16, m *enc, msg *bmsg) {
	c.send(ch, m)
	h := &enc{}
	h.u16(60)
	h.u16(0)
	h.u64(uint64(len(msg.body)))
	h.Write(msg.props)
	c.frame(2, ch, h.Bytes())
	for b := msg.body; len(b) > 0; {
		n := min(len(b), 131072-8)
		c.frame(3, ch, b[:n])
		b = b[n:]
	}
}

func (c *bconn) serve() {
	in := bufio.NewReader(c.net)
	defer func() {
		c.b.mu.Lock()
		defer c.b.mu.Unlock()
		c.net.Close()
		c.dead = true
		delete(c.b.conns, c)
		for _, ch := range c.chs {
			c.b.closeChan(ch)
		}
	}()
	head := make([]byte, 8)
	if _, err := io.ReadFull(in, head); err != nil || string(head[:4]) != "AMQP" {
		return
	}
	c.b.mu.Lock()
	m := method(10, 10)
	m.u8(0)
	m.u8(9)
	m.u32(0) // no server properties
	m.long("PLAIN AMQPLAIN")
	m.long("en_US")
	c.send(0, m)
	c.out.Flush()
	c.b.mu.Unlock()
	for {
		var h [7]byte
		if _, err := io.ReadFull(in, h[:]); err != nil {
			return
		}
		p := make([]byte, binary.BigEndian.Uint32(h[3:])+1)
		if _, err := io.ReadFull(in, p); err != nil {
			return
		}
		c.b.mu.Lock()
		err := c.handle(h[0], binary.BigEndian.Uint16(h[1:]), p[:len(p)-1])
		for o := range c.b.conns {
			o.out.Flush()
		}
		c.b.mu.Unlock()
		if err != nil {
			return
		}
	}
}

func (b *Broker) closeChan(ch *bchan) {
	for _, k := range ch.cons {
		b.cancel(k)
	}
	// give back what was not acknowledged, in order
	var back []unacked
	for t := uint64(0); t <= ch.tag; t++ {
		if u, ok := ch.unacked[t]; ok {
			back = append(back, u)
		}
	}
	for i := len(back) - 1; i >= 0; i-- {
		b.requeue(back[i])
	}
	ch.unacked = map[uint64]unacked{}
	delete(ch.c.chs, ch.id)
	for _, q := range b.queues {
		b.dispatch(q)
	}
}

func (b *Broker) requeue(u unacked) {
	u.m.redelivery = true
	u.q.msgs = append([]*bmsg{u.m}, u.q.msgs...)
}

func (b *Broker) cancel(k *bconsumer) {
	for i, o := range k.q.consumers {
		if o == k {
			k.q.consumers = append(k.q.consumers[:i:i], k.q.consumers[i+1:]...)
			break
		}
	}
	delete(k.ch.cons, k.tag)
}

func (b *Broker) dispatch(q *bqueue) {
	for len(q.msgs) > 0 && len(q.consumers) > 0 {
		var k *bconsumer
		for i := range q.consumers {
			o := q.consumers[(q.next+i)%len(q.consumers)]
			if o.noAck || o.ch.prefetch == 0 || len(o.ch.unacked) < o.ch.prefetch {
				k, q.next = o, (q.next+i+1)%len(q.consumers)
				break
			}
		}
		if k == nil {
			return
		}
		m := q.msgs[0]
		q.msgs = q.msgs[1:]
		k.ch.tag++
		if !k.noAck {
			k.ch.unacked[k.ch.tag] = unacked{q, m, k}
		}
		d := method(60, 60)
		d.short(k.tag)
		d.u64(k.ch.tag)
		d.u8(bit(m.redelivery))
		d.short(m.exch)
		d.short(m.key)
		k.ch.c.content(k.ch.id, d, m)
	}
}

func bit(b bool) byte {
	if b {
		return 1
	}
	return 0
}

func (c *bconn) fail(ch uint16, code uint16, text string) {
	m := method(20, 40)
	m.u16(code)
	m.short(text)
	m.u16(0)
	m.u16(0)
	c.send(ch, m)
	if k := c.chs[ch]; k != nil {
		c.b.closeChan(k)
	}
}

func (c *bconn) handle(typ byte, id uint16, p []byte) error {
	b, ch := c.b, c.chs[id]
	d := dec{bytes.NewReader(p)}
	switch typ {
	case 8:
		return nil
	case 2: // content header
		if ch == nil || ch.pub == nil {
			return nil
		}
		d.u32()
		ch.want = d.u64()
		ch.pub.props = append([]byte{}, p[12:]...)
		if ch.want == 0 {
			c.published(ch)
		}
		return nil
	case 3:
		if ch == nil || ch.pub == nil {
			return nil
		}
		ch.pub.body = append(ch.pub.body, p...)
		if uint64(len(ch.pub.body)) >= ch.want {
			c.published(ch)
		}
		return nil
	case 1:
	default:
		return fmt.Errorf("frame type %d", typ)
	}
	class, m := d.u16(), d.u16()
	op := uint32(class)<<16 | uint32(m)
	const (
		connStartOk, connTuneOk, connOpen, connClose, connCloseOk = 10<<16 | 11, 10<<16 | 31, 10<<16 | 40, 10<<16 | 50, 10<<16 | 51
		chOpen, chFlow, chClose, chCloseOk                        = 20<<16 | 10, 20<<16 | 20, 20<<16 | 40, 20<<16 | 41
		exchDeclare                                               = 40<<16 | 10
		qDeclare, qBind, qPurge, qDelete                          = 50<<16 | 10, 50<<16 | 20, 50<<16 | 30, 50<<16 | 40
		bQos, bConsume, bCancel, bPublish, bGet                   = 60<<16 | 10, 60<<16 | 20, 60<<16 | 30, 60<<16 | 40, 60<<16 | 70
		bAck, bReject, bRecover, bNack                            = 60<<16 | 80, 60<<16 | 90, 60<<16 | 110, 60<<16 | 120
		confirmSelect                                             = 85<<16 | 10
	)
	switch op {
	case connStartOk:
		t := method(10, 30)
		t.u16(2047)
		t.u32(131072)
		t.u16(0)
		c.send(0, t)
	case connTuneOk:
	case connOpen:
		o := method(10, 41)
		o.short("")
		c.send(0, o)
	case connClose:
		c.send(0, method(10, 51))
		c.out.Flush()
		return io.EOF
	case connCloseOk:
		return io.EOF
	case chOpen:
		c.chs[id] = &bchan{c: c, id: id, unacked: map[uint64]unacked{}, cons: map[string]*bconsumer{}}
		o := method(20, 11)
		o.long("")
		c.send(id, o)
	case chClose:
		if ch != nil {
			b.closeChan(ch)
		}
		c.send(id, method(20, 41))
	case chCloseOk:
	default:
		if ch == nil {
			return fmt.Errorf("no such channel")
		}
	}
	switch op {
	case exchDeclare:
		c.send(id, method(40, 11))
	case qDeclare:
		d.u16()
		name := d.short()
		flags := d.u8()
		if name == "" {
			name = fmt.Sprintf("amq.gen-%d", len(b.queues))
		}
		q := b.queues[name]
		if q == nil {
			if flags&1 != 0 {
				c.fail(id, 404, "NOT_FOUND - no queue")
				return nil
			}
			q = &bqueue{name: name}
			b.queues[name] = q
		}
		if flags&16 == 0 {
			o := method(50, 11)
			o.short(name)
			o.u32(uint32(len(q.msgs)))
			o.u32(uint32(len(q.consumers)))
			c.send(id, o)
		}
	case qBind:
		c.send(id, method(50, 21))
	case qPurge:
		d.u16()
		n := 0
		if q := b.queues[d.short()]; q != nil {
			n = len(q.msgs)
			q.msgs = nil
		}
		o := method(50, 31)
		o.u32(uint32(n))
		c.send(id, o)
	case qDelete:
		d.u16()
		name, n := d.short(), 0
		if q := b.queues[name]; q != nil {
			n = len(q.msgs)
		}
		delete(b.queues, name)
		o := method(50, 41)
		o.u32(uint32(n))
		c.send(id, o)
	case bQos:
		d.u32()
		ch.prefetch = int(d.u16())
		c.send(id, method(60, 11))
		for _, q := range b.queues {
			b.dispatch(q)
		}
	case bConsume:
		d.u16()
		name, tag := d.short(), d.short()
		flags := d.u8()
		q := b.queues[name]
		if q == nil {
			c.fail(id, 404, "NOT_FOUND - no queue '"+name+"'")
			return nil
		}
		if tag == "" {
			tag = fmt.Sprintf("ctag-%d", len(ch.cons)+1)
		}
		if flags&4 != 0 && len(q.consumers) > 0 {
			c.fail(id, 403, "ACCESS_REFUSED - queue in exclusive use")
			return nil
		}
		k := &bconsumer{q: q, ch: ch, tag: tag, noAck: flags&2 != 0}
		ch.cons[tag] = k
		q.consumers = append(q.consumers, k)
		if flags&8 == 0 {
			o := method(60, 21)
			o.short(tag)
			c.send(id, o)
		}
		b.dispatch(q)
	case bCancel:
		tag := d.short()
		if k := ch.cons[tag]; k != nil {
			b.cancel(k)
		}
		if d.u8()&1 == 0 {
			o := method(60, 31)
			o.short(tag)
			c.send(id, o)
		}
	case bPublish:
		d.u16()
		ch.exch, ch.key = d.short(), d.short()
		ch.pub, ch.want = &bmsg{exch: ch.exch, key: ch.key}, 0
	case bGet:
		d.u16()
		q, noAck := b.queues[d.short()], false
		noAck = d.u8()&1 != 0
		if q == nil {
			c.fail(id, 404, "NOT_FOUND - no queue")
			return nil
		}
		if len(q.msgs) == 0 {
			o := method(60, 72)
			o.short("")
			c.send(id, o)
			return nil
		}
		msg := q.msgs[0]
		q.msgs = q.msgs[1:]
		ch.tag++
		if !noAck {
			ch.unacked[ch.tag] = unacked{q, msg, nil}
		}
		o := method(60, 71)
		o.u64(ch.tag)
		o.u8(bit(msg.redelivery))
		o.short(msg.exch)
		o.short(msg.key)
		o.u32(uint32(len(q.msgs)))
		c.content(id, o, msg)
	case bAck, bNack, bReject:
		tag, flags := d.u64(), d.u8()
		multiple, requeue := flags&1 != 0 && op != bReject, op == bReject && flags&1 != 0 || op == bNack && flags&2 != 0
		var done []uint64
		for t := uint64(1); t <= ch.tag; t++ {
			if _, ok := ch.unacked[t]; ok && (t == tag || multiple && (t < tag || tag == 0)) {
				done = append(done, t)
			}
		}
		if len(done) == 0 {
			c.fail(id, 406, "PRECONDITION_FAILED - unknown delivery tag")
			return nil
		}
		for i := len(done) - 1; i >= 0; i-- {
			if requeue {
				b.requeue(ch.unacked[done[i]])
			}
			delete(ch.unacked, done[i])
		}
		for _, q := range b.queues {
			b.dispatch(q)
		}
	case bRecover:
		var back []unacked
		for t := uint64(0); t <= ch.tag; t++ {
			if u, ok := ch.unacked[t]; ok {
				back = append(back, u)
			}
		}
		for i := len(back) - 1; i >= 0; i-- {
			b.requeue(back[i])
		}
		ch.unacked = map[uint64]unacked{}
		c.send(id, method(60, 111))
		for _, q := range b.queues {
			b.dispatch(q)
		}
	case confirmSelect:
		ch.confirm = true
		c.send(id, method(85, 11))
	case chFlow:
		o := method(20, 21)
		o.u8(d.u8())
		c.send(id, o)
	}
	return nil
}

func (c *bconn) published(ch *bchan) {
	m := ch.pub
	ch.pub = nil
	c.b.Published++
	// only the default exchange routes to queues
	if q := c.b.queues[m.key]; q != nil && m.exch == "" {
		q.msgs = append(q.msgs, m)
		c.b.dispatch(q)
	}
	if ch.confirm {
		ch.pubs++
		a := method(60, 80)
		a.u64(ch.pubs)
		a.u8(0)
		c.send(ch.id, a)
	}
}
