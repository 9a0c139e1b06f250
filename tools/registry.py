"""Which harness package and tests decide each property, and how."""
CHECKS = {}
def c(pid, pkg, technique, note, **kw):
    CHECKS[pid] = dict(pkg=pkg, run=f"^Test{pid}", technique=technique, note=note, **kw)

c("C19", "rt", "stateful and concurrent property testing with injected constructor failures (rapid)",
  "random users, pool sizes, construction failures and timings; schedules come from the Go scheduler, so rare interleavings can be missed")
c("C30", "rt", "model-based testing and linearizability checking of random concurrent histories (rapid + porcupine)",
  "sequential histories against a map; concurrent ones sampled from the Go scheduler")
c("C31", "rt", "model-based testing of random histories and schedules (rapid)",
  "sequential histories against a list; concurrent ones checked for loss, duplication and order")
c("C35", "rtsql", "model-based testing of random statement histories over several instances (rapid)",
  "histories of simple statements; SQL itself is not tested")
c("C36", "rt", "model-based testing of random namespace graphs, argument sources and schedules (rapid)",
  "graphs of up to 7 names in up to 4 nested namespaces")
c("C37", "rt", "model-based testing of random registration histories (rapid)", "3 names, up to 10 steps; concurrent Get sampled")
c("C38", "rt", "property-based testing of random API mixes with statistical and conservation oracles (rapid)",
  "runs of 50-150 ms; a share that deviates by less than 7 sigma is not detected")
c("C39", "rt", "property-based testing against a reference type-compatibility function (rapid)", "33 type shapes, nesting depth 3")
c("C32", "rtnosql", "differential property testing against a reference matcher (rapid)", "documents of depth 3 over 3 field names; null compared through arrays is left open by the reference")
c("C33", "rtnosql", "differential property testing against a reference update function (rapid)", "documents of depth 3; conflicting paths, null parents and array indices under missing parents are left open by the reference")
c("C34", "rtnosql", "model-based testing of random histories with aliasing and late reads, and of concurrent writers (rapid)", "4 collections, 14 steps; concurrent schedules come from the Go scheduler; projections are not covered")
c("C01", "wire", "model-based property testing of random modifier sequences over synthetic services (rapid)", "up to 5 services, 6 modifiers each, processes and containers; an RPC service that is not deployed anywhere and has callers in several namespaces is left out")
c("C02", "wire", "model-based testing of random definition graphs against a namespace-resolution model (rapid)", "up to 13 definitions and nested namespaces, which may be built in several places")
c("C03", "wire", "fault-injection property testing of random definition graphs (rapid)", "14 kinds of faults, at most 2 at a time")
c("C04", "wire", "model-based testing of random call histories (rapid)", "6 names, 40 calls; properties of a name that is an alias are left open")
c("C05", "wire", "property-based testing of name conversions, incl. a running process namespace (rapid)", "names made of digits only are left out")
c("C06", "wire", "property-based testing of random port sets (rapid)", "up to 12 addresses, and full port ranges")
c("C07", "deploy", "model-based testing of random deployments, oracle over the parsed YAML (rapid)", "up to 5 synthetic containers and 8 addresses; docker itself is not run")
c("C08", "deploy", "model-based testing of random applications, oracle over the parsed YAML (rapid)", "up to 4 pods, 8 containers, 8 addresses; kubernetes itself is not run")
c("C09", "deploy", "model-based testing of random sets of addresses (rapid)", "up to 10 addresses")
c("C10", "deploy", "model-based testing of random process graphs by executing the generated scripts (rapid)", "up to 5 processes; names of shell builtins are left out; bash only")
c("C11", "code", "differential property testing of random Go modules against the Go type checker (rapid)", "type aliases, embedded interfaces, array lengths other than literals and simple constants, the insides of inline func, struct and interface types, and type arguments beyond the first are left open")
c("C12", "code", "property-based testing of random types and import orders, oracle is the Go type checker (rapid)", "inline func, struct and interface types are left out")
c("C13", "code", "stateful property testing of random module additions over random module trees (rapid)", "up to 6 modules; replace directives with relative paths are left out")

LAB = "applications of up to 12 services with up to 8 generated types; they are really compiled, built and run, so a quick run covers few cases. gorilla/mux and the circuit breaker library, which cannot be fetched offline, are stand-ins with their documented behaviour, as is the protoc gRPC plugin; "
L = dict(limit={"quick": 840, "thorough": 7200}, assumptions=["the stand-ins for github.com/gorilla/mux, github.com/mercari/go-circuitbreaker and protoc-gen-go-grpc behave like the originals where the generated code uses them"])
c("C14", "lab", "property-based testing of generated applications: Blueprint compiles them, the generated code is built and run, oracle is a direct call (rapid)",
  LAB + "the client pool is covered with C15 and C16", **L)
c("C15", "lab", "property-based testing of generated HTTP applications, compiled, built and called over loopback, oracle is a direct call (rapid)",
  LAB + "URLs beyond 1 MB, unexported fields and variadic methods are left out", **L)
c("C16", "lab", "property-based testing of generated gRPC applications, compiled, built and called over loopback, oracle is a direct call; unsupported types must be rejected (rapid)",
  LAB + "a list of 37 unsupported types; the generated client's own timeout of 1 s is taken as intended", **L)
c("C17", "lab", "property-based testing of generated applications with scripted services, oracle over the recorded calls (rapid)",
  LAB + "zero or negative numbers of tries are left open", **L)
c("C18", "lab", "property-based testing of generated applications with scripted slow services, oracle over the recorded times (rapid)",
  LAB + "a margin of several 100 ms on upper bounds of times", **L)
c("C20", "lab", "property-based testing of generated applications with replicated services under concurrent callers (rapid)", LAB + "up to 6 replicas; schedules come from the Go scheduler", **L)
c("C21", "lab", "property-based testing of generated applications with statistical oracles (rapid)", LAB + "a rate that deviates by less than 7 sigma is not detected", **L)
c("C22", "lab", "property-based testing of generated traced applications and random call trees; the oracle compares the spans collected over loopback with the calls made (rapid)",
  LAB + "the collector is a stand-in for Zipkin; the encoding of span contexts is also checked by itself", **L)
c("C23", "lab", "differential property testing: generated applications, deployed and started as generated, against the same services composed by hand (rapid)",
  LAB + "docker is not run: containers are directories, with loopback addresses for their names", **L)
c("C24", "lab", "property-based testing of generated applications and test modules: the converted tests are run and report what reached the services (rapid)",
  LAB + "registries of a part of an interface without constructors of its own, modules without converted tests, and tests outside _test.go files are left open", **L)
c("C25", "lab", "property-based testing of generated applications with scripted failures, oracle over the calls that reach the services (rapid)",
  LAB + "how long an open breaker stays open is left open", **L)
c("C26", "lab", "property-based testing of generated instrumented applications and of the process logger by itself; oracle: a reference vector clock over the recorded calls (rapid)",
  LAB + "schedules come from the Go scheduler", **L)
NET = "the servers are stand-ins that speak the protocol over loopback (none is installed and none can be fetched); "
c("C40", "rtnet", "model-based testing of random histories against servers that speak the protocols, with injected server errors and broken connections (rapid)",
  NET + "concurrent schedules come from the Go scheduler", assumptions=["the stand-in servers answer as Redis and Memcached document"])
c("C41", "rtnet", "property-based testing of random sequences of log calls from several goroutines (rapid)", "schedules come from the Go scheduler")
c("C42", "rtnet", "model-based testing of random histories against a server that speaks the protocol, with injected failures (rapid)",
  NET + "concurrent schedules come from the Go scheduler", assumptions=["the stand-in server answers as RabbitMQ documents"])
c("C43", "rtnosql", "model-based and differential testing of random histories against a server that speaks MongoDB's wire protocol (rapid)",
  NET + "ReplaceMany, which the client does not offer, and cursors read after later writes are left out", assumptions=["the stand-in server answers as MongoDB documents"])
