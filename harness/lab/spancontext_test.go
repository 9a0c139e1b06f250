package lab

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/blueprint-uservices/blueprint/runtime/core/backend"
	"go.opentelemetry.io/otel/trace"
	"pgregory.net/rapid"
	"verif/harness/h"
)

func TestC22_SpanContextRoundTrip(t *testing.T) {
	h.Check(t, h.Opts{Quick: 15000, Thorough: 500000, Rule: "a random valid OpenTelemetry span context is encoded as the generated clients encode it (its JSON form) and decoded again; non-trivial = it has trace state or unusual flags"}, func(t *rapid.T, c *h.Case) {
		var tid trace.TraceID
		var sid trace.SpanID
		copy(tid[:], rapid.SliceOfN(rapid.Byte(), 16, 16).Draw(t, "tid"))
		copy(sid[:], rapid.SliceOfN(rapid.Byte(), 8, 8).Draw(t, "sid"))
		tid[15] |= 1
		sid[7] |= 1
		fl := trace.TraceFlags(rapid.Byte().Draw(t, "flags"))
		var ts trace.TraceState
		for i := rapid.IntRange(0, 3).Draw(t, "members"); i > 0; i-- {
			k := rapid.StringMatching(`[a-z][a-z0-9_\-*/]{0,5}`).Draw(t, "key")
			v := rapid.StringMatching(`[!-+\--<>-~]{1,6}`).Draw(t, "value")
			if n, err := ts.Insert(k, v); err == nil {
				ts = n
			}
		}
		sc := trace.NewSpanContext(trace.SpanContextConfig{TraceID: tid, SpanID: sid, TraceFlags: fl, TraceState: ts, Remote: rapid.Bool().Draw(t, "remote")})
		enc, err := sc.MarshalJSON()
		if err != nil {
			c.Failf("marshal: %v", err)
		}
		c.Logf("%s", enc)
		c.NonTrivial(ts.Len() > 0 || fl > 1)
		var cfg trace.SpanContextConfig
		if p := h.Try(func() { cfg, err = backend.GetSpanContext(string(enc)) }); p != nil {
			c.Failf("GetSpanContext panicked: %v", p)
		}
		if err != nil {
			c.Failf("GetSpanContext: %v", err)
		}
		if got := trace.NewSpanContext(cfg); !got.Equal(sc) {
			g, _ := got.MarshalJSON()
			c.Failf("decoded %s", g)
		}
	})
}

func TestC22_SpanContextMalformed(t *testing.T) {
	h.Check(t, h.Opts{Quick: 40000, Thorough: 2000000, Rule: "arbitrary strings, and JSON objects whose fields are valid, empty, missing, too short or not hexadecimal; decoding must not panic, must fail for what is not a span context and must agree field by field otherwise; non-trivial = a JSON object with at least one valid field"}, func(t *rapid.T, c *h.Case) {
		var s string
		valid := true
		m := map[string]any{}
		if rapid.IntRange(0, 4).Draw(t, "raw") == 0 {
			s = rapid.OneOf(rapid.String(), rapid.StringMatching(`[{}\[\]":,a-z0-9]{0,20}`)).Draw(t, "s")
			valid = false
			var probe map[string]any
			if json.Unmarshal([]byte(s), &probe) == nil && len(probe) > 3 {
				return
			}
		} else {
			hexfield := func(name string, n int) {
				switch rapid.IntRange(0, 11).Draw(t, name) {
				case 0:
					valid = false // missing
				case 1:
					m[name] = ""
					valid = false
				case 2:
					m[name] = strings.Repeat("0", 2*n)
					valid = valid && n == 1
				case 3:
					m[name] = rapid.StringMatching(`[0-9a-f]{1,6}`).Draw(t, "short") + "x"
					valid = false
				case 4:
					m[name] = 12
					valid = false
				default:
					b := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes")
					b[0] |= 1
					m[name] = hex.EncodeToString(b)
					c.NonTrivial(true)
				}
			}
			hexfield("TraceID", 16)
			hexfield("SpanID", 8)
			hexfield("TraceFlags", 1)
			if rapid.IntRange(0, 15).Draw(t, "longflags") == 0 {
				m["TraceFlags"] = "0102"
				valid = false
			}
			switch rapid.IntRange(0, 4).Draw(t, "state") {
			case 0:
				m["TraceState"] = rapid.SampledFrom([]string{"==", "a", "A B=c", "a=b,a=c"}).Draw(t, "badstate")
				valid = false
			case 1:
				m["TraceState"] = "k=v"
			case 2:
				m["TraceState"] = ""
			}
			if rapid.Bool().Draw(t, "remote") {
				m["Remote"] = true
			}
			b, _ := json.Marshal(m)
			s = string(b)
		}
		c.Logf("%s", s)
		var cfg trace.SpanContextConfig
		var err error
		if p := h.Try(func() { cfg, err = backend.GetSpanContext(s) }); p != nil {
			c.Failf("GetSpanContext panicked: %v", p)
		}
		if valid != (err == nil) {
			c.Failf("GetSpanContext: error %v, input valid=%v", err, valid)
		}
		if valid {
			c.Label("valid")
			if fmt.Sprint(cfg.TraceID) != m["TraceID"] || fmt.Sprint(cfg.SpanID) != m["SpanID"] || fmt.Sprintf("%02x", byte(cfg.TraceFlags)) != m["TraceFlags"] || cfg.Remote != (m["Remote"] == true) {
				c.Failf("decoded %+v", cfg)
			}
		}
	})
}
