package deploy

import (
	"flag"
	"io"
	"log"
	"log/slog"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	xslog "golang.org/x/exp/slog"
	"gopkg.in/yaml.v3"
	"pgregory.net/rapid"

	"github.com/blueprint-uservices/blueprint/blueprint/pkg/coreplugins/address"
	"github.com/blueprint-uservices/blueprint/blueprint/pkg/ir"
	"github.com/blueprint-uservices/blueprint/plugins/docker"
)

const h60 = 60 * time.Second

func TestMain(m *testing.M) {
	flag.Parse()
	slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil)))
	xslog.SetDefault(xslog.New(xslog.NewTextHandler(io.Discard, nil)))
	log.SetOutput(io.Discard)
	os.Exit(m.Run())
}

// a plain configuration value
type conf struct {
	name     string
	hasValue bool
	optional bool
}

func (c *conf) Name() string       { return c.name }
func (c *conf) String() string     { return c.name }
func (c *conf) Optional() bool     { return c.optional }
func (c *conf) HasValue() bool     { return c.hasValue }
func (c *conf) Value() string      { return "v" }
func (c *conf) ImplementsIRConfig() {}

// not a configuration value
type misc struct{ name string }

func (c *misc) Name() string   { return c.name }
func (c *misc) String() string { return c.name }

func bindNode(addr string, port, preferred uint16) *address.BindConfig {
	b := &address.BindConfig{}
	b.AddressName, b.Key, b.Port, b.PreferredPort = addr, addr+".bind_addr", port, preferred
	if port != 0 {
		b.Hostname = "0.0.0.0"
	}
	return b
}

func dialNode(addr string) *address.DialConfig {
	d := &address.DialConfig{}
	d.AddressName, d.Key = addr, addr+".dial_addr"
	return d
}

type bindSpec struct {
	addr            string
	port, preferred uint16
	node            *address.BindConfig
}

type kv struct{ k, v string }

// a synthetic container
type container struct {
	name    string
	image   string // "" = local image
	binds   []*bindSpec
	dials   []string
	confs   []*conf
	bad     bool // has an argument that is not configuration
	env     []kv
	volumes []kv
	command []string
	custom  []kv
	argPerm []ir.IRNode
}

func (c *container) Name() string               { return c.name }
func (c *container) String() string             { return c.name }
func (c *container) ImplementsDockerContainer() {}

func (c *container) imageDir() string { return c.name + "_img" }

func (c *container) AddContainerArtifacts(ws docker.ContainerWorkspace) error {
	if c.image != "" {
		return nil
	}
	dir, err := ws.CreateImageDir(c.imageDir())
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "Dockerfile"), []byte("FROM scratch\n"), 0644)
}

func (c *container) AddContainerInstance(ws docker.ContainerWorkspace) error {
	if c.image != "" {
		if err := ws.DeclarePrebuiltInstance(c.name, c.image, c.argPerm...); err != nil {
			return err
		}
	} else if err := ws.DeclareLocalImage(c.name, ir.CleanName(c.imageDir()), c.argPerm...); err != nil {
		return err
	}
	for _, e := range c.env {
		if err := ws.SetEnvironmentVariable(c.name, e.k, e.v); err != nil {
			return err
		}
	}
	for _, e := range c.volumes {
		if err := ws.AddVolume(c.name, e.k, e.v); err != nil {
			return err
		}
	}
	if len(c.command) > 0 {
		if err := ws.SetCustomCommand(c.name, c.command); err != nil {
			return err
		}
	}
	for _, e := range c.custom {
		if err := ws.AddCustomConf(c.name, e.k, e.v); err != nil {
			return err
		}
	}
	return nil
}

// names whose clean forms are distinct
var nameParts = []string{"svc", "user", "cart", "db", "cache", "front_end", "queue"}
var nameEnds = []string{"", "_ctr", ".ctr", "-x", "1", ".a.b", "_proc"}

func clean(s string) string {
	b := []byte(s)
	for i, c := range b {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			b[i] = '_'
		}
	}
	return string(b)
}

func envName(s string) string { return strings.ToUpper(clean(s)) }

func genNames(t *rapid.T, label string, min, max int) []string {
	n := rapid.IntRange(min, max).Draw(t, label)
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		s := rapid.SampledFrom(nameParts).Draw(t, "part") + rapid.SampledFrom(nameEnds).Draw(t, "end")
		if !seen[strings.ReplaceAll(clean(s), "_", "")] {
			seen[strings.ReplaceAll(clean(s), "_", "")] = true
			out = append(out, s)
		}
	}
	return out
}

var nastyValues = []string{"plain", "a b", "x=y", "3", "true", "no", "null", "~", "", "with: colon", "# hash", "quote\"inside", "it's", "back\\slash", "a\nb", "tab\there", "<html>&amp;", "{{braces}}", "[list]", "*star", "&anchor", "!bang", "%percent", "@at", "`tick`", "uni\u00e9\u4e2d", " lead", "trail ", "0x10", "1e3", "12:30:45", "- dash", "? q", "|", ">", "a#b", "100%"}

func genValue(t *rapid.T) string {
	if rapid.IntRange(0, 3).Draw(t, "nasty") == 0 {
		return rapid.StringMatching(`[ -~\t\né中]{0,12}`).Draw(t, "val")
	}
	return rapid.SampledFrom(nastyValues).Draw(t, "val")
}

var ports = []uint16{80, 81, 82, 2000, 2001, 3306, 8080, 27017, 65535, 1}

type parsed = map[string]any

func parseYAML(path string) (parsed, string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, "", err
	}
	dec := yaml.NewDecoder(strings.NewReader(string(b)))
	var out parsed
	if err := dec.Decode(&out); err != nil {
		return nil, string(b), err
	}
	var rest any
	if err := dec.Decode(&rest); err != io.EOF {
		return nil, string(b), errMore
	}
	return out, string(b), nil
}

type moreErr struct{}

func (moreErr) Error() string { return "more than one YAML document" }

var errMore = moreErr{}

func strList(v any) ([]string, bool) {
	if v == nil {
		return nil, true
	}
	l, ok := v.([]any)
	if !ok {
		return nil, false
	}
	var out []string
	for _, e := range l {
		s, ok := e.(string)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

// genContainers makes a set of containers with addresses, configuration values and so on. Every address is
// bound by at most one container.
func genContainers(t *rapid.T, names []string, addrs []string, withConf bool) []*container {
	var cs []*container
	for _, n := range names {
		c := &container{name: n}
		if rapid.Bool().Draw(t, "prebuilt") {
			c.image = rapid.SampledFrom([]string{"mysql", "mongo:4.2", "reg.io:5000/x/y:latest"}).Draw(t, "image")
		}
		cs = append(cs, c)
	}
	for _, a := range addrs {
		owner := rapid.IntRange(-1, len(cs)-1).Draw(t, "owner")
		if rapid.IntRange(0, 1).Draw(t, "first") == 0 {
			owner = 0 // many servers in one container
		}
		if owner < 0 {
			continue
		}
		b := &bindSpec{addr: a}
		switch rapid.IntRange(0, 3).Draw(t, "portkind") {
		case 0:
			b.port = rapid.SampledFrom(ports).Draw(t, "port")
		case 1:
			b.preferred = rapid.SampledFrom(ports).Draw(t, "pref")
		}
		b.node = bindNode(a, b.port, b.preferred)
		cs[owner].binds = append(cs[owner].binds, b)
	}
	for _, c := range cs {
		for _, a := range addrs {
			if rapid.IntRange(0, 2).Draw(t, "dials") == 0 {
				c.dials = append(c.dials, a)
			}
		}
		if withConf {
			for i, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"opt.level", "timeout_ms", "a-b", "mode"}), 0, 3, rapid.ID[string]).Draw(t, "confs") {
				_ = i
				c.confs = append(c.confs, &conf{name: k, hasValue: rapid.IntRange(0, 2).Draw(t, "hasvalue") == 0, optional: rapid.Bool().Draw(t, "optional")})
			}
		}
		for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"ENV_A", "env.b", "MYSQL_ROOT_PASSWORD", "Lower-Case"}), 0, 3, rapid.ID[string]).Draw(t, "env") {
			c.env = append(c.env, kv{k, genValue(t)})
		}
		var args []ir.IRNode
		for _, b := range c.binds {
			args = append(args, b.node)
		}
		for _, d := range c.dials {
			args = append(args, dialNode(d))
		}
		for _, cf := range c.confs {
			args = append(args, cf)
		}
		if withConf && rapid.IntRange(0, 40).Draw(t, "bad") == 0 {
			c.bad = true
			args = append(args, &misc{"misc"})
		}
		if len(args) > 0 {
			args = rapid.Permutation(args).Draw(t, "args")
		}
		c.argPerm = args
	}
	return cs
}

func (c *container) describe() string {
	var b strings.Builder
	b.WriteString("container " + c.name + " image=" + c.image)
	for _, a := range c.argPerm {
		switch n := a.(type) {
		case *address.BindConfig:
			for _, s := range c.binds {
				if s.node == n {
					b.WriteString(" bind(" + s.addr + " fixed=" + itoa(s.port) + " preferred=" + itoa(s.preferred) + ")")
				}
			}
		case *address.DialConfig:
			b.WriteString(" dial(" + n.AddressName + ")")
		case *conf:
			b.WriteString(" conf(" + n.name)
			if n.hasValue {
				b.WriteString(" value")
			}
			if n.optional {
				b.WriteString(" optional")
			}
			b.WriteString(")")
		default:
			b.WriteString(" notconfig(" + a.Name() + ")")
		}
	}
	for _, e := range c.env {
		b.WriteString(" env(" + e.k + "=" + quote(e.v) + ")")
	}
	for _, e := range c.volumes {
		b.WriteString(" volume(" + e.k + ":" + e.v + ")")
	}
	for _, e := range c.command {
		b.WriteString(" arg(" + quote(e) + ")")
	}
	for _, e := range c.custom {
		b.WriteString(" custom(" + e.k + ":" + e.v + ")")
	}
	return b.String()
}
