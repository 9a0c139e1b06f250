package rtnet

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/govector"
	ot "github.com/blueprint-uservices/blueprint/runtime/plugins/opentelemetry"
	"github.com/blueprint-uservices/blueprint/runtime/plugins/slogger"
	sdktrace "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"golang.org/x/exp/slog"
	"pgregory.net/rapid"
	"verif/harness/h"
)

type record struct{ level, msg, ctx string }

// capture is the handler that the slog package gives its records to.
type capture struct {
	mu   sync.Mutex
	recs []record
}

func (h *capture) Enabled(context.Context, slog.Level) bool { return true }
func (h *capture) WithAttrs([]slog.Attr) slog.Handler       { return h }
func (h *capture) WithGroup(string) slog.Handler            { return h }
func (h *capture) Handle(ctx context.Context, r slog.Record) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	v, _ := ctx.Value(ctxKey{}).(string)
	l := r.Level.String()
	h.recs = append(h.recs, record{l, r.Message, v})
	return nil
}

type ctxKey struct{}

var govecOnce sync.Once
var govecLogger *govector.GoVecLogger
var govecFile string

// theGoVecLogger is the logger of this process: there can be only one.
func theGoVecLogger(c *h.Case) *govector.GoVecLogger {
	govecOnce.Do(func() {
		dir, _ := os.MkdirTemp(os.Getenv("VERIF_TMP"), "govec")
		govecFile = filepath.Join(dir, "p")
		l, err := govector.NewGoVecLogger(bg, govecFile)
		if err != nil {
			c.Failf("NewGoVecLogger: %v", err)
		}
		govecLogger = l
		govecFile += "-Log.txt"
	})
	return govecLogger
}

// readLog returns what was written since the offset: pairs of a clock and a message.
func readLog(c *h.Case, off int) (clocks, msgs []string, n int) {
	b, err := os.ReadFile(govecFile)
	if err != nil {
		c.Failf("no log file: %v", err)
	}
	n = len(b)
	ls := strings.Split(strings.TrimSuffix(string(b[off:]), "\n"), "\n")
	for i := 0; i+1 < len(ls); i += 2 {
		clocks, msgs = append(clocks, ls[i]), append(msgs, ls[i+1])
	}
	return
}

var formats = []struct {
	f    string
	args func(t *rapid.T) []any
}{
	{"plain message", func(*rapid.T) []any { return nil }},
	{"100%% of it", func(*rapid.T) []any { return nil }},
	{"user %s did %d things", func(t *rapid.T) []any {
		return []any{rapid.SampledFrom([]string{"", "a", "%d", "日本"}).Draw(t, "s"), rapid.Int().Draw(t, "n")}
	}},
	{"%v and %v", func(t *rapid.T) []any { return []any{[]string{"x", "%s"}, map[string]int{"k": 1}} }},
	{"%+v|%q|%5.2f", func(t *rapid.T) []any { return []any{struct{ A int }{3}, "q", 1.5} }},
	{"missing %d", func(*rapid.T) []any { return nil }},
	{"extra", func(*rapid.T) []any { return []any{1, "x"} }},
}

func TestC41_Loggers(t *testing.T) {
	h.Check(t, h.Opts{Quick: 15000, Thorough: 500000, Rule: "1-12 messages of random formats, arguments and priorities, by any method of any of the loggers, from one or several goroutines; non-trivial = at least two priorities and a message with arguments"}, func(t *rapid.T, c *h.Case) {
		which := rapid.SampledFrom([]string{"slog", "slog", "opentelemetry", "opentelemetry", "govector"}).Draw(t, "logger")
		c.Logf("%s", which)
		c.Label(which)
		cap := &capture{}
		slog.SetDefault(slog.New(cap))
		exp := tracetest.NewInMemoryExporter()
		tp := sdktrace.NewTracerProvider(sdktrace.WithSyncer(exp), sdktrace.WithRawSpanLimits(sdktrace.SpanLimits{EventCountLimit: -1, AttributeCountLimit: -1, AttributePerEventCountLimit: -1, AttributeValueLengthLimit: -1, LinkCountLimit: -1, AttributePerLinkCountLimit: -1}))
		var l backend.Logger
		var err error
		off := 0
		switch which {
		case "slog":
			l, err = slogger.NewSLogger(bg)
		case "opentelemetry":
			l, err = ot.NewOTTraceLogger(bg)
		case "govector":
			l = theGoVecLogger(c)
			backend.SetDefaultLogger(l)
			_, _, off = readLog(c, 0)
			before := l
			if again, err := govector.NewGoVecLogger(bg, "other"); err != nil || again != before || govector.GetLogger() != before {
				c.Failf("a process has more than one vector clock: %v", err)
			}
		}
		if err != nil {
			c.Failf("new logger: %v", err)
		}
		if rapid.Bool().Draw(t, "default") {
			if got := backend.GetLogger(); got != l {
				c.Failf("the logger of the process is a %T", got)
			}
			l = backend.GetLogger()
		}
		ctx := context.WithValue(bg, ctxKey{}, "v")
		ctx, span := tp.Tracer("t").Start(ctx, "span")
		octx, other := tp.Tracer("t").Start(ctx, "other")
		_ = octx
		names := map[backend.Priority]string{backend.DEBUG: "DEBUG", backend.INFO: "INFO", backend.WARN: "WARN", backend.ERROR: "ERROR"}
		var want []record
		var mu sync.Mutex
		par := rapid.IntRange(0, 3).Draw(t, "par") == 0
		var wg sync.WaitGroup
		prios, hasArgs := map[backend.Priority]bool{}, false
		var problem string
		for i := rapid.IntRange(1, 12).Draw(t, "n"); i > 0; i-- {
			f := rapid.SampledFrom(formats).Draw(t, "format")
			p := backend.Priority(rapid.IntRange(0, 3).Draw(t, "priority"))
			args := f.args(t)
			msg := fmt.Sprintf(f.f, args...)
			logf := rapid.Bool().Draw(t, "logf")
			c.Logf("%v %q %v logf=%v par=%v", p, f.f, args, logf, par)
			prios[p], hasArgs = true, hasArgs || len(args) > 0
			want = append(want, record{names[p], msg, "v"})
			do := func() {
				var rctx context.Context
				var err error
				switch {
				case logf:
					rctx, err = l.Logf(ctx, backend.LogOptions{Level: p}, f.f, args...)
				case p == backend.DEBUG:
					rctx, err = l.Debug(ctx, f.f, args...)
				case p == backend.INFO:
					rctx, err = l.Info(ctx, f.f, args...)
				case p == backend.WARN:
					rctx, err = l.Warn(ctx, f.f, args...)
				default:
					rctx, err = l.Error(ctx, f.f, args...)
				}
				mu.Lock()
				defer mu.Unlock()
				if err != nil || rctx == nil || rctx.Value(ctxKey{}) != "v" {
					problem = fmt.Sprintf("logging %q: %v, context %v", msg, err, rctx)
				}
			}
			if par {
				wg.Add(1)
				go func() { defer wg.Done(); do() }()
			} else {
				do()
			}
		}
		wg.Wait()
		span.End()
		other.End()
		if problem != "" {
			c.Failf("%s", problem)
		}
		var got []record
		switch which {
		case "slog":
			got = cap.recs
		case "opentelemetry":
			for _, s := range exp.GetSpans() {
				for _, e := range s.Events {
					r := record{"?", e.Name, "v"}
					for _, a := range e.Attributes {
						if a.Key == "Priority" {
							r.level = a.Value.AsString()
						}
					}
					if s.Name != "span" {
						r.ctx = "the wrong span"
					}
					got = append(got, r)
				}
			}
		case "govector":
			clocks, msgs, _ := readLog(c, off)
			for i, m := range msgs {
				level, msg, _ := strings.Cut(m, " ")
				got = append(got, record{strings.TrimSuffix(level, "ING"), msg, "v"})
				if i > 0 && clocks[i] == clocks[i-1] {
					c.Failf("two events with the clock %s", clocks[i])
				}
			}
			// the clock's log leaves out messages that are only for debugging
			var w []record
			for _, r := range want {
				if r.level != "DEBUG" {
					w = append(w, r)
				}
			}
			want = w
		}
		c.NonTrivial(len(prios) > 1 && hasArgs)
		left := append([]record{}, got...)
		for i, w := range want {
			if !par {
				if i >= len(got) || got[i] != w {
					c.Failf("logged %q, expected %q", got, want)
				}
				continue
			}
			found := false
			for j, g := range left {
				if g == w {
					left, found = append(left[:j:j], left[j+1:]...), true
					break
				}
			}
			if !found {
				c.Failf("logged %q, expected %q", got, want)
			}
		}
		if len(got) != len(want) {
			c.Failf("logged %d records %q, expected %d: %q", len(got), got, len(want), want)
		}
	})
}
