// Package circuitbreaker is a stand-in for github.com/mercari/go-circuitbreaker, which this sandbox cannot
// fetch. It implements the part that Blueprint's generated circuit breakers use.
package circuitbreaker

import (
	"context"
	"errors"
	"sync"
	"time"
)

var ErrOpen = errors.New("circuit breaker open")

type Counters struct{ Successes, Failures int64 }

type TripFunc func(*Counters) bool

func NewTripFuncFailureRate(min int64, rate float64) TripFunc {
	return func(c *Counters) bool {
		if c.Successes+c.Failures < min {
			return false
		}
		return float64(c.Failures)/float64(c.Successes+c.Failures) >= rate
	}
}

func NewTripFuncThreshold(n int64) TripFunc {
	return func(c *Counters) bool { return c.Failures >= n }
}

type options struct {
	trip                         TripFunc
	interval                     time.Duration
	openTimeout                  time.Duration
	halfOpen                     int64
	failOnCancel, failOnDeadline bool
}

type BreakerOption func(*options)

func WithTripFunc(f TripFunc) BreakerOption                  { return func(o *options) { o.trip = f } }
func WithCounterResetInterval(d time.Duration) BreakerOption { return func(o *options) { o.interval = d } }
func WithOpenTimeout(d time.Duration) BreakerOption          { return func(o *options) { o.openTimeout = d } }
func WithHalfOpenMaxSuccesses(n int64) BreakerOption         { return func(o *options) { o.halfOpen = n } }
func WithFailOnContextCancel(b bool) BreakerOption           { return func(o *options) { o.failOnCancel = b } }
func WithFailOnContextDeadline(b bool) BreakerOption {
	return func(o *options) { o.failOnDeadline = b }
}

const (
	closed = iota
	open
	halfOpen
)

type CircuitBreaker struct {
	o     options
	mu    sync.Mutex
	c     Counters
	state int
	at    time.Time
	last  time.Time
}

func New(opts ...BreakerOption) *CircuitBreaker {
	cb := &CircuitBreaker{o: options{openTimeout: 10 * time.Minute, halfOpen: 4, trip: NewTripFuncFailureRate(10, 0.5)}, last: time.Now()}
	for _, f := range opts {
		f(&cb.o)
	}
	return cb
}

// tick carries out what is due.
func (cb *CircuitBreaker) tick() {
	if cb.state == closed && cb.o.interval > 0 && time.Since(cb.last) >= cb.o.interval {
		cb.c, cb.last = Counters{}, time.Now()
	}
	if cb.state == open && time.Since(cb.at) >= cb.o.openTimeout {
		cb.state, cb.c = halfOpen, Counters{}
	}
}

func (cb *CircuitBreaker) trip() { cb.state, cb.at = open, time.Now() }

// Ready reports whether a call may be made now.
func (cb *CircuitBreaker) Ready() bool {
	cb.mu.Lock()
	defer cb.mu.Unlock()
	cb.tick()
	return cb.state != open
}

func (cb *CircuitBreaker) Success() {
	cb.mu.Lock()
	defer cb.mu.Unlock()
	cb.tick()
	cb.c.Successes++
	if cb.state == halfOpen && cb.c.Successes >= cb.o.halfOpen {
		cb.state, cb.c, cb.last = closed, Counters{}, time.Now()
	}
}

func (cb *CircuitBreaker) Fail() {
	cb.mu.Lock()
	defer cb.mu.Unlock()
	cb.tick()
	cb.c.Failures++
	if cb.state == halfOpen || cb.state == closed && cb.o.trip(&cb.c) {
		cb.trip()
	}
}

func (cb *CircuitBreaker) FailWithContext(ctx context.Context) {
	if err := ctx.Err(); err == context.Canceled && !cb.o.failOnCancel || err == context.DeadlineExceeded && !cb.o.failOnDeadline {
		return
	}
	cb.Fail()
}

// Done records the outcome of a call and returns its error.
func (cb *CircuitBreaker) Done(ctx context.Context, err error) error {
	if err == nil {
		cb.Success()
		return nil
	}
	cb.FailWithContext(ctx)
	return err
}

// Do makes a call if it may be made now.
func (cb *CircuitBreaker) Do(ctx context.Context, f func() (interface{}, error)) (interface{}, error) {
	if !cb.Ready() {
		return nil, ErrOpen
	}
	r, err := f()
	return r, cb.Done(ctx, err)
}
