# ---------------------------------------------------------------- compiler core
prop("C01", "Service modifiers apply on the right side and in the declared order",
 "For any sequence of client-side and server-side modifiers that a wiring spec applies to a service, every caller's call passes through the client-side modifiers in the order they were declared and then through the server-side modifiers in the reverse of the order they were declared, each exactly once, before reaching the service. Modifiers of one service never appear on the path to another service, and an address (network boundary) always lies between the client side and the server side.",
 ["configurations", "programs"],
 "all wiring specs: any number of services, any interleaving of AddSrcModifier/AddDstModifier/AddAddrModifier calls across services, any set of callers, with or without namespaces around client and server",
 "the wiring tests fix a handful of specs with one or two modifiers; ordering bugs appear only with three or more modifiers, interleaved declarations or several services",
 ["blueprint/pkg/coreplugins/pointer/pointer.go", "blueprint/pkg/coreplugins/address/wiring.go", "blueprint/pkg/wiring/namespace.go"],
 [("SrcModifier/DstModifier chains and their alias nodes", "pointer.go AddSrcModifier/AddDstModifier/AddAddrModifier"), ("lazy instantiation of the server side", "pointer.go InstantiateDst")],
 observe=["the graph of IR nodes returned by WiringSpec.BuildIR"])

prop("C02", "Each node is built once, in the right namespace, with its edges recorded",
 "Building an application from any wiring spec instantiates exactly the nodes reachable from the requested ones: each one exactly once per namespace that owns it, inside the nearest enclosing namespace that accepts its type and otherwise in the parent. Two references from the same namespace resolve to the same node, and whenever a node in a namespace uses a node from outside it, that outside node is recorded as an argument (edge) of every namespace crossed. Building the same spec again produces the same application.",
 ["configurations", "programs"],
 "all acyclic wiring specs: random definition graphs, node types, namespace nestings, namespace accept rules, requested roots and reference orders",
 "the wiring tests check a few fixed specs; placement and sharing depend on the shape of the whole graph and on the order nodes are reached",
 ["blueprint/pkg/wiring/namespace.go", "blueprint/pkg/wiring/wiring.go", "blueprint/pkg/coreplugins/namespaceutil/namespace.go", "blueprint/pkg/ir/ir.go"],
 [("namespace Get/Instantiate with Seen/Added maps", "blueprint/pkg/wiring/namespace.go"), ("children and edges collected by the handler", "NamespaceHandler.AddNode/AddEdge")],
 observe=["ApplicationNode children", "namespace nodes' child and edge lists", "number of BuildFunc invocations"])

prop("C03", "Compilation reports failures instead of producing a broken application",
 "If anything goes wrong while an application is being built (a node's build function fails, a referenced name is not defined, a node has the wrong type for its reference, or a node declared reachable from only one caller is reached from more), building the application returns an error that mentions the failure, and never panics, hangs or returns success. Conversely a spec without such a fault builds without error, even when some definitions it never reaches are faulty.",
 ["configurations", "fault_sequences"],
 "all wiring specs with zero or more faults injected at any reachable or unreachable definition, on the client or server side of services, inside or outside namespaces",
 "the existing tests inject no build failures except one missing definition; the position of the fault relative to pointers and namespaces is what matters",
 ["blueprint/pkg/wiring/namespace.go", "blueprint/pkg/wiring/wiring.go", "blueprint/pkg/coreplugins/pointer/pointer.go", "blueprint/pkg/coreplugins/pointer/visibility.go", "blueprint/pkg/coreplugins/namespaceutil/namespace.go"],
 [("error returns through Get and Defer", "namespace.go"), ("uniqueness check", "pointer/visibility.go")],
 observe=["error result of WiringSpec.BuildIR"])

prop("C04", "Wiring spec names, aliases and properties behave like a consistent store",
 "Under any history of define, alias and property calls, a wiring spec reports the last definition of each name, resolves an alias (through any chain of aliases) to what it currently points to, and lists exactly the defined names. Values added to a property are returned in the order they were added, a set property returns the value last set, and reads never change what later reads return.",
 ["histories"],
 "all sequences of Define, Alias, GetDef, GetAlias, AddProperty, SetProperty, GetProperty, GetProperties and Defs calls with overlapping names",
 "existing tests call each operation once or twice; the interactions (redefinition, alias chains, defining over an alias, type-mismatched reads) need histories",
 ["blueprint/pkg/wiring/wiring.go"],
 [("defs and aliases maps", "blueprint/pkg/wiring/wiring.go")],
 observe=["return values of WiringSpec methods"])

prop("C05", "Names turn into valid identifiers, and generated names agree everywhere",
 "Any node name is converted to a file/directory name made only of letters, digits and underscores, to an environment variable name that is a valid upper-case shell identifier and to a function name that is a valid lower-case one, deterministically and idempotently. The environment variable name computed when artifacts are generated is the one the running process looks up for the same node name.",
 ["inputs"],
 "all node names, including dots, dashes, slashes, spaces, unicode and punctuation",
 "no tests exist for naming; agreement between compile-time and run-time conversion is only visible for names that contain the odd characters",
 ["blueprint/pkg/ir/irutil.go", "blueprint/pkg/blueprint/stringutil/name.go", "plugins/linux/util.go", "runtime/plugins/golang/namespace.go"],
 [("CleanName/EnvVar/FuncName at compile time", "plugins/linux/util.go, blueprint/pkg/ir"), ("env var lookup at run time", "runtime/plugins/golang/namespace.go")],
 observe=["returned strings", "values a running namespace reads from its environment"])

# ---------------------------------------------------------------- deployment artifacts
prop("C06", "Server ports never collide and explicit ports are kept",
 "Assigning ports to any set of server bind addresses gives every one of them a non-zero port that no other has, keeps every port that was fixed beforehand, and uses a preferred port whenever nothing else holds it. It reports exactly which addresses it assigned, fails if and only if two fixed ports conflict or no port is left, and clearing restores the unassigned state of exactly those it assigned.",
 ["inputs", "configurations"],
 "all lists of bind addresses with any mixture of fixed ports, preferred ports (including repeated, low and very high ones) and unspecified ports",
 "no test exercises port assignment; collisions need particular combinations of preferred and fixed ports",
 ["blueprint/pkg/coreplugins/address/portassignment.go", "blueprint/pkg/coreplugins/address/ir.go"],
 [("AssignPorts, CheckPorts, Clear, ResetPorts", "blueprint/pkg/coreplugins/address/portassignment.go")],
 observe=["BindConfig.Port after AssignPorts / Clear"])

prop("C07", "Generated docker-compose files connect every caller to the right server",
 "For any set of containers, the generated docker-compose file is valid YAML with exactly one service per container instance, carrying its image or build directory, environment, volumes, command and custom configuration. Within it every address that a container binds gets a distinct port in that container and is published, every container that dials an address bound in the same deployment is given exactly that server's hostname and port, and an address or configuration value that is not available inside the deployment is passed through from the environment under the node's variable name.",
 ["configurations"],
 "all deployments: any number of containers, prebuilt or built, any bindings (with fixed or preferred ports), dials, config values with or without a value, volumes, commands and environment variables",
 "existing tests only check IR for a few specs and never look at a generated compose file",
 ["plugins/dockercompose/deploy.go", "plugins/dockercompose/dockergen/dockercompose.go", "plugins/docker/ir.go"],
 [("processArgNodes", "plugins/dockercompose/deploy.go"), ("compose template", "plugins/dockercompose/dockergen/dockercompose.go")],
 observe=["docker-compose.yml in the output directory"])

prop("C08", "Generated Kubernetes manifests connect every caller to the right server",
 "For any assignment of containers to pods, the generated manifests are valid YAML with one Deployment and one Service per pod, one container entry per instance, and a Service port for every address bound in the pod, with no two servers in a pod sharing a port. Every address a container dials is available to it as an environment variable: a server in the same pod as localhost with that server's port, any other server through the config map entry, which holds the pod name and port of the pod that binds the address; an address that no pod binds is an error.",
 ["configurations"],
 "all applications: any number of pods and containers per pod, any bindings and dials within and across pods, fixed or preferred ports",
 "no test generates Kubernetes manifests",
 ["plugins/kubernetes/ir.go", "plugins/kubernetes/kubepod/deploy.go", "plugins/kubernetes/kubepod/deploygen/deployfile.go", "plugins/kubernetes/kubeconfig/codegen.go"],
 [("processArgNodes", "plugins/kubernetes/kubepod/deploy.go"), ("config map of dial addresses", "plugins/kubernetes/ir.go")],
 observe=["*-deployment.yaml, *-service.yaml, app_config.yaml in the output directory"])

prop("C09", "Generated .env files give each server one port and each caller that port",
 "For any set of addresses in an application, the generated environment files assign every address its own port counted up from the initial port, set each server's variable to listen on that port on all interfaces, and set each caller's variable to the same port, at localhost in the local file and at the service's name in the other. Every address with a server or caller appears and no variable is assigned twice with different values.",
 ["configurations"],
 "all sets of bind and dial configs, in any order, with or without a matching counterpart, any initial port",
 "no test covers the environment plugin",
 ["plugins/environment/wiring.go", "blueprint/pkg/ir/builders.go"],
 [("matchDialsToBinds and generateEnv", "plugins/environment/wiring.go")],
 observe=[".env and .local.env in the output directory"])

prop("C10", "Generated run.sh starts each process once, after its dependencies",
 "Running a generated workspace run.sh with all required variables set starts every declared process exactly once, in its own function run from the workspace root, and only after the processes it depends on have started, with the declared dependencies visible under their environment variable names. If a required variable is missing it starts nothing and names the missing variable; build.sh runs every added build script once, from the directory the script is in, and a build script outside the workspace is rejected.",
 ["configurations"],
 "all sets of processes, dependency graphs among processes and configuration values, names with dots and underscores, and any subset of variables missing",
 "no test executes a generated script",
 ["plugins/linuxcontainer/linuxgen/run.sh.go", "plugins/linuxcontainer/linuxgen/runfunc.go", "plugins/linuxcontainer/linuxgen/build.sh.go", "plugins/linuxcontainer/deploy.go"],
 [("RunScript.GenerateRunScript", "plugins/linuxcontainer/linuxgen/run.sh.go"), ("runFuncTemplate", "plugins/linuxcontainer/linuxgen/runfunc.go")],
 observe=["behaviour of run.sh and build.sh under bash"])

# ---------------------------------------------------------------- golang plugin
prop("C11", "The code parser sees the interfaces, structs and functions that Go sees",
 "For any Go module that compiles, the parser finds exactly the packages, interfaces, structs, struct fields, constructor functions and methods declared at package level, with the names and types of arguments, return values and fields (including package-qualified, aliased-import, pointer, slice, array, map, variadic and channel types) agreeing with the Go type checker; type aliases, embedded interfaces and the insides of inline func, struct and interface types are outside the supported subset. Looking up a service by its interface or its implementation finds a matching interface, implementation and constructor, and a type that is not a valid service is rejected.",
 ["programs"],
 "all Go modules within the supported subset: any arrangement of packages, files, import aliases, declaration groups, named types and signatures",
 "the tests parse only the repository's own example workflows",
 ["plugins/golang/goparser/parser.go", "plugins/golang/goparser/moduleset.go", "plugins/golang/goparser/module.go", "plugins/golang/gocode/typename.go", "plugins/workflow/workflowspec/service.go"],
 [("ParsedFile.ResolveType and load functions", "plugins/golang/goparser"), ("service lookup", "plugins/workflow/workflowspec/service.go")],
 observe=["ParsedModuleSet contents compared with go/types"])

prop("C12", "Types written into generated code denote the types they came from",
 "For any types used by a service interface, the import block and type names that code generation emits form a file that compiles and in which each name denotes exactly the original type, even when packages share a last path element, a package's name differs from its directory, or types come from the generating package itself. Two types are reported equal exactly when Go considers them identical.",
 ["programs", "inputs"],
 "all type expressions over basic types, user types from any packages, pointers, slices, maps, variadics and channels, and any order in which imports are added",
 "tests exercise one or two imported packages; conflicts need several packages with clashing names",
 ["plugins/golang/gogen/imports.go", "plugins/golang/gocode/typename.go", "plugins/golang/gocode/service.go", "plugins/golang/gogen/template.go"],
 [("Imports.AddType/NameOf/Qualify", "plugins/golang/gogen/imports.go")],
 observe=["generated Go files, type-checked"])

prop("C13", "A generated Go workspace contains every module it needs, unmodified",
 "For any set of local and generated modules added to an output workspace, each local module is copied completely and unmodified (apart from the replace directives in its go.mod), each generated module gets its own directory, go.work lists exactly the modules, and every module's go.mod redirects the other modules of the workspace to their copies. Modules that would overwrite one another are either kept in separate directories or rejected with an error.",
 ["configurations", "histories"],
 "all sequences of module additions, including repeated additions, clashing short names, nested module paths and modules with existing replace directives",
 "the wiring tests never generate artifacts",
 ["plugins/golang/gogen/workspacebuilder.go", "plugins/golang/gogen/modulebuilder.go", "plugins/golang/helpers.go", "blueprint/pkg/blueprint/ioutil/ioutil.go"],
 [("CreateModule, AddLocalModule, updateModfile", "plugins/golang/gogen/workspacebuilder.go")],
 observe=["files in the output workspace"])

prop("C14", "In-process wrappers leave results, errors and arguments unchanged",
 "For any service interface and any stack of in-process modifiers (retries, timeouts, circuit breaker, client pool, latency injection, delay and failure injection that never triggers, health check, load balancer, tracing), the generated code compiles and calling a method through the stack delivers the arguments unchanged to the service and returns exactly its results, or an error exactly when the service returns an error.",
 ["programs", "inputs"],
 "all service interfaces in the supported type subset, all stacks and orders of modifiers, all argument values and error outcomes",
 "no test compiles or runs generated wrapper code",
 ["plugins/retries", "plugins/timeouts", "plugins/circuitbreaker", "plugins/clientpool", "plugins/latency", "plugins/faultinjector", "plugins/healthchecker", "plugins/loadbalancer", "plugins/opentelemetry", "plugins/golang/gogen"],
 [("wrapper templates", "plugins/*/codegen.go"), ("generated namespace", "plugins/golang/gogen/namespacebuilder.go")],
 observe=["generated code, compiled and run"])

prop("C15", "HTTP-deployed services behave like local calls",
 "For any service whose arguments and results are JSON-representable, calling a method through the generated HTTP client and server invokes exactly the corresponding method once with equal arguments and returns equal results; when the method fails, or the server cannot be reached, the caller receives an error.",
 ["programs", "inputs"],
 "all service interfaces over JSON-representable types, all argument and result values including empty, unicode, URL-special, large and nested ones, error outcomes, concurrent calls",
 "no test compiles or runs generated HTTP code",
 ["plugins/http/httpcodegen/clientgen.go", "plugins/http/httpcodegen/servergen.go", "plugins/http/wiring.go"],
 [("HTTP client and server templates", "plugins/http/httpcodegen")],
 observe=["generated code, compiled and run over loopback"])

prop("C16", "gRPC-deployed services behave like local calls",
 "For any service whose types the gRPC plugin accepts, the generated message definitions and conversion code compile, and calling a method through the generated gRPC client and server invokes exactly the corresponding method once with equal arguments and returns equal results (nil and empty slices and maps being interchangeable); when the method fails the caller receives an error. Types that gRPC cannot carry are rejected when the application is compiled.",
 ["programs", "inputs"],
 "all service interfaces over the types the plugin accepts: basic types of every width, strings, bytes, structs, pointers to structs, slices and maps of these, nested; all values including nil pointers and zero values",
 "no test compiles or runs generated gRPC code",
 ["plugins/grpc/grpccodegen/protogen.go", "plugins/grpc/grpccodegen/marshallgen.go", "plugins/grpc/grpccodegen/clientgen.go", "plugins/grpc/grpccodegen/servergen.go"],
 [("proto generation", "protogen.go"), ("Marshall/Unmarshall code", "marshallgen.go")],
 observe=["generated code, compiled and run over loopback"])

prop("C17", "Retries stop at the first success and never exceed the configured tries",
 "A service wrapped with retries calls the wrapped service until the first success and at most the configured number of times, returning the results of the successful attempt, or the last error after exactly that many attempts. Delay variants wait at least the configured delay (fixed, or growing exponentially up to the maximum) between attempts, and each service's own configuration applies to it even when several services share an interface type.",
 ["programs", "fault_sequences", "configurations"],
 "all retry configurations, all sequences of failures, several services with the same or different interfaces and different configurations in one process",
 "no test runs generated retry code",
 ["plugins/retries/wiring.go", "plugins/retries/codegen.go", "plugins/retries/ir.go"],
 [("retry loop template", "plugins/retries")],
 observe=["number and times of calls seen by the wrapped service, and the caller's result"])

prop("C18", "Timeouts bound the caller's wait and pass fast calls through",
 "A call through a timeout wrapper returns an error no earlier than its configured timeout and promptly after it when the wrapped service takes longer, whether or not the wrapped service ever returns; when the wrapped service answers well within the timeout the caller gets exactly its results or its error. The wrapped service sees a context that carries the deadline and values of the caller's context.",
 ["programs", "schedules", "fault_sequences"],
 "all timeouts, service durations around them, results and errors, several timeouts on different services, concurrent calls",
 "no test runs generated timeout code",
 ["plugins/timeouts/codegen.go", "plugins/timeouts/wiring.go", "plugins/timeouts/ir.go"],
 [("timeout wrapper template", "plugins/timeouts/codegen.go")],
 observe=["caller's result and elapsed time"])

prop("C19", "Client pools bound concurrency, share nothing in use, and never wedge",
 "Under any schedule of concurrent users, a client pool never creates more clients than its configured maximum, never hands one client to two users at once, reuses returned clients, and gives every waiting user a client once one is free. When creating a client fails, the failing user gets the error and other users still get clients afterwards; each service's pool uses its own size.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings of Pop/Push from many goroutines, pool sizes, failures of the client constructor at any point",
 "one test covers a fixed schedule; it never makes construction fail",
 ["runtime/plugins/clientpool/clientpool.go", "plugins/clientpool/ir.go", "plugins/clientpool/wiring.go"],
 [("Pop/Push with bounded creation", "runtime/plugins/clientpool/clientpool.go")],
 observe=["clients handed out, number of constructor calls, completion of waiting users"])

prop("C20", "Load balancers spread calls evenly over exactly their replicas",
 "A replicated service gets the requested number of instances, and its load balancer delivers every call to exactly one replica, with each replica receiving the same number of calls to within one, whatever the order and concurrency of callers and whatever errors the calls return.",
 ["configurations", "schedules"],
 "all replica counts, call counts and mixes of methods, sequential and concurrent callers",
 "no test runs generated load balancer code",
 ["plugins/loadbalancer/codegen.go", "plugins/loadbalancer/wiring.go", "plugins/loadbalancer/ir_balancer.go", "plugins/replication/wiring.go"],
 [("pickClient", "plugins/loadbalancer/codegen.go")],
 observe=["calls counted at each replica"])

prop("C21", "Injected latency and faults occur exactly as configured",
 "A service with fixed latency injected delays every call by at least the configured duration and otherwise behaves as before; one with a failure probability of 0 never fails by injection and with 100 always fails without invoking the service, with intermediate probabilities failing at about that rate; one with a random delay never waits longer than the maximum by design. Calls that are not failed return exactly what the service returns, and each service's own configuration applies to it.",
 ["programs", "configurations"],
 "all latencies, probabilities and maxima (small values), all services and methods, several services with the same interface and different configurations",
 "no test runs generated injector code",
 ["plugins/latency/codegen.go", "plugins/faultinjector/probabilistic/codegen.go", "plugins/faultinjector/delay/codegen.go"],
 [("injector templates", "plugins/latency, plugins/faultinjector")],
 observe=["call durations, injected errors, invocation counts"])

prop("C22", "Trace context crosses service boundaries intact",
 "When services are instrumented for tracing, every server-side span belongs to the same trace as the client call that caused it and is a child of that call's client span, for any call tree, and the wrapped services' arguments and results are unaffected. A span context encoded for transport decodes to the same trace id, span id, flags and state, and a malformed one is reported as an error.",
 ["programs", "histories", "inputs"],
 "all call trees over instrumented services, concurrent requests, all span contexts and arbitrary input strings",
 "no test runs instrumented code or decodes span contexts",
 ["plugins/opentelemetry/ir_ot_client.go", "plugins/opentelemetry/ir_ot_server.go", "runtime/core/backend/trace.go"],
 [("trace context argument added to interfaces", "plugins/opentelemetry"), ("GetSpanContext", "runtime/core/backend/trace.go")],
 observe=["spans exported by an in-memory exporter", "decoded span contexts"])

prop("C23", "An application gives the same answers however it is deployed",
 "For any workflow application, any grouping of its services into processes, and any choice of modifiers and HTTP or gRPC deployment for them, compiling the wiring spec yields artifacts that build and start using the generated scripts and environment names, and every request to the application returns the same result as the plain in-process composition of the same services.",
 ["programs", "configurations", "histories"],
 "all acyclic workflow applications with deterministic services, all deployments of them, all request sequences",
 "the wiring tests stop at the IR; no test builds or runs generated artifacts",
 ["plugins/goproc", "plugins/linuxcontainer", "plugins/cmdbuilder", "plugins/workflow", "plugins/golang", "blueprint/pkg/wiring", "blueprint/pkg/ir"],
 [("the whole compilation pipeline", "plugins/cmdbuilder/cmdbuilder.go")],
 observe=["responses of the running deployment"])

# ---------------------------------------------------------------- runtime
prop("C24", "Converted tests run against the compiled application",
 "When a wiring spec converts the tests of some services, the application's workspace gets copies of the test modules that build and run. In a converted test package, every registry of service clients whose type is a tested service's interface provides that service: its client is registered under the service's name, as the default, ahead of the registrations of the tests themselves, so that calls made by the tests reach the service as it is wired in the compiled application, through its client modifiers. A registration that the tests choose explicitly with SetDefault is used, a registry that no tested service fits keeps only its own registrations, and the original test files are left unchanged.",
 ["programs", "configurations"],
 "all test modules with any number of packages, files and registries over several interfaces, and all applications whose services they test, with any client modifiers",
 "the plugin's own tests only convert its own example; what the converted tests then reach depends on the program",
 ["plugins/gotests", "runtime/core/registry"],
 [("finding and converting the tests", "plugins/gotests/findtests.go"), ("the generated registrations", "plugins/gotests/codegen")],
 observe=["outcome of the converted tests", "the calls the services record"])

prop("C25", "Circuit breakers refuse calls once the failure rate is reached",
 "A service with a circuit breaker is called unchanged, with its results and errors, until within one interval at least the minimum number of calls completed and the configured share of them failed. From then on calls are refused at once with an error and without reaching the service. The counts start anew with every interval, and the breakers of different services are independent of each other.",
 ["programs", "configurations", "histories", "fault_sequences"],
 "all minimum numbers, failure rates and intervals, all services and methods, all sequences of failing and succeeding calls, with other client modifiers around the breaker",
 "no test runs generated circuit breaker code",
 ["plugins/circuitbreaker"],
 [("the generated client wrapper", "plugins/circuitbreaker/codegen.go")],
 observe=["results and errors of calls", "the calls that reach the service"])

prop("C26", "Vector clocks follow the calls",
 "In an application instrumented with GoVector, every process keeps a vector clock that grows with each event, and every instrumented call carries its caller's clock to the service and, when it returns, the service's clock back to the caller. The logs of the processes therefore order events as the calls did: what a service does during a call comes after what its caller did before it and before what the caller does afterwards, and events that no chain of calls connects are not ordered. The instrumented services' arguments, results and errors are unaffected.",
 ["programs", "histories", "schedules"],
 "all applications of instrumented services in several processes behind HTTP or gRPC, all trees of calls over them; all sequences of messages between the logger's processes",
 "no test runs instrumented code",
 ["plugins/govector", "runtime/plugins/govector"],
 [("the generated wrappers", "plugins/govector"), ("the process's logger", "runtime/plugins/govector/log.go")],
 observe=["the GoVector logs of the processes", "results of calls"])

prop("C30", "The in-memory cache behaves like a linearizable map",
 "The built-in cache returns, for every key, the value of the last completed put (or the incremented counter), reports absent keys as absent, deletes what it is told to delete, and stores multi-key puts and returns multi-key gets in key order. Concurrent operations on a key (a multi-key operation counting as one operation per key) appear to happen atomically one at a time, so no increment or write is lost.",
 ["histories", "schedules"],
 "all histories of Put, Get, Mset, Mget, Delete, Incr over overlapping keys with values of any supported type, sequential and concurrent",
 "three example-based tests, all sequential",
 ["runtime/plugins/simplecache/cache.go", "runtime/core/backend/reflect.go"],
 [("map guarded by a lock", "runtime/plugins/simplecache/cache.go")],
 observe=["results of cache operations"])

prop("C31", "The in-memory queue delivers each item once, in order",
 "The built-in queue delivers every successfully pushed item to exactly one pop, in the order pushed, equal to what was pushed. A pop on an empty queue and a push on a full one wait, complete as soon as they can, and return unsuccessfully without losing or duplicating an item when their context is cancelled first.",
 ["histories", "schedules"],
 "all histories of Push and Pop with many producers and consumers, cancellations at any point, and values of any supported type",
 "five tests with fixed schedules",
 ["runtime/plugins/simplequeue/queue.go", "runtime/core/backend/reflect.go"],
 [("buffered channel", "runtime/plugins/simplequeue/queue.go")],
 observe=["items popped, results of Push/Pop"])

prop("C32", "Document filters select what MongoDB's query language says they select",
 "For any collection of documents and any filter built from the operators the built-in document store supports, a query matches exactly the documents that the documented MongoDB semantics of that filter select, including dotted paths, implicit matching of array elements, missing fields, nulls, and numbers of different widths. Unsupported or malformed filters are rejected with an error and never match documents.",
 ["inputs"],
 "all filters over the supported operators ($eq $ne $gt $gte $lt $lte with numbers, $in $and $or $nor $exists $elemMatch $all $regex, $not on a query, and implicit equality) and all BSON documents of bounded depth",
 "31 example-based tests over one small data set",
 ["runtime/plugins/simplenosqldb/query/parsefilter.go", "runtime/plugins/simplenosqldb/query/filter.go"],
 [("filter parser and evaluators", "runtime/plugins/simplenosqldb/query")],
 observe=["documents returned by Find"])

prop("C33", "Document updates change exactly what MongoDB's update language says",
 "Applying any supported update to any document changes exactly the fields that the documented MongoDB semantics of the update name, leaving all others (including the rest of any array) as they were, and never touches documents that do not match. An update that is malformed or cannot be applied returns an error and leaves the document unchanged.",
 ["inputs"],
 "all updates built from the supported operators ($set, $unset, $inc by an integer, $push, $pull and $addToSet without modifiers) over any paths including array indices, applied to any documents of bounded depth",
 "a handful of example-based tests; array and missing-path interactions need generated documents",
 ["runtime/plugins/simplenosqldb/query/parseupdate.go", "runtime/plugins/simplenosqldb/query/update.go"],
 [("update parser and evaluators", "runtime/plugins/simplenosqldb/query")],
 observe=["documents returned by Find after Update"])

prop("C34", "The document store keeps what was written, isolated and counted right",
 "Under any history of inserts, finds, updates, replacements, upserts and deletes, the built-in document store holds exactly the documents a reference collection would hold, in insertion order, reports the right matched/modified counts, and keeps databases and collections separate. Values stored or returned are snapshots: later changes by the caller to what it passed in or got back, or later writes to the store, do not alter them, and an operation that fails changes nothing (an update of many documents stops at the first one that cannot be updated).",
 ["histories", "schedules"],
 "all histories over several databases and collections, documents given as bson.D, bson.M or structs, cursors read early or late, concurrent writers",
 "example-based tests with a fixed data set and no aliasing or failure cases",
 ["runtime/plugins/simplenosqldb/nosqldb.go"],
 [("collection item list", "runtime/plugins/simplenosqldb/nosqldb.go")],
 observe=["contents returned by Find*, counts returned by Update*/Replace*/Delete*"])

prop("C35", "Built-in relational databases are independent and lose no writes",
 "Each built-in relational database instance is its own database: statements executed on one are visible to all later queries on that instance, through any of its query methods, and never on another instance. Concurrent users of one instance each see their own completed writes, and every write that reports success takes effect exactly once.",
 ["histories", "schedules"],
 "all histories of create, insert, update, delete and select over several instances, with sequential and concurrent users",
 "one test on a single instance",
 ["runtime/plugins/sqlitereldb/reldb.go"],
 [("data source name of the sqlite connection", "runtime/plugins/sqlitereldb/reldb.go")],
 observe=["query results"])

prop("C36", "The runtime namespace builds each dependency once and shuts down cleanly",
 "A process namespace builds each node at most once and only when needed, runs each runnable instance once, gives every user the same instance, looks in its parent namespace for what it does not define, and returns the build error (never a half-built value) to everyone who asks for a failed node. Required arguments missing from both flags and environment are reported when the namespace is built, explicit arguments take precedence over the environment, and waiting for a namespace returns only after every runnable node started in it or in namespaces derived from it has stopped.",
 ["histories", "configurations", "fault_sequences"],
 "all dependency graphs of nodes, build failures at any node, argument sources, nested namespaces and runnable nodes",
 "twelve example-based tests over two or three nodes",
 ["runtime/plugins/golang/namespace.go"],
 [("Namespace.Get, NamespaceBuilder.Build, Await/Shutdown", "runtime/plugins/golang/namespace.go")],
 observe=["build counts, instances, errors, completion of Await"])

prop("C37", "A service registry builds its client once, from the registered default",
 "A service registry returns a client built by the default build function (the first registered unless another was set) and builds it at most once, so that every caller gets the same client or the same error; with nothing registered, or an unknown default, it returns an error.",
 ["histories"],
 "all sequences of Register, SetDefault and Get with any names and failing build functions",
 "one test with one registration",
 ["runtime/core/registry/registry.go"],
 [("ServiceRegistry.Get", "runtime/core/registry/registry.go")],
 observe=["returned client, error and build function calls"])

prop("C38", "The workload engine issues APIs in proportion and counts every request",
 "For any set of APIs whose proportions sum to 100, the workload engine issues each API in its configured proportion and rejects proportions that do not sum to 100. Every issued request produces exactly one statistics record, errors included, and none is lost when the run ends.",
 ["configurations", "schedules"],
 "all API mixes, request rates, durations and API outcomes",
 "no test covers the workload engine",
 ["runtime/core/workload/engine.go", "runtime/core/workload/workload.go", "runtime/core/workload/stats.go"],
 [("Engine.RunOpenLoop and proportion table", "runtime/core/workload/engine.go")],
 observe=["API call counts and written statistics"])

prop("C39", "Copying a backend result yields the same value or an error",
 "Copying a stored value into a caller's destination stores a value equal to the original whenever the value's type is assignable or convertible to the destination's type in the way the backends document, and otherwise returns an error leaving the destination as it was; resetting a destination sets it to its type's zero value. No input makes it panic.",
 ["inputs"],
 "all pairs of values and destinations: basic types, pointers, nil, slices, maps, structs, interfaces, non-pointer destinations",
 "no direct test",
 ["runtime/core/backend/reflect.go"],
 [("CopyResult, SetZero", "runtime/core/backend/reflect.go")],
 observe=["destination value and returned error"])

prop("C40", "Redis and Memcached caches answer as the built-in cache does",
 "The Redis and Memcached clients behave like a map from keys to values: Get stores an equal copy of the last value put under the key into the caller's variable, for every value that its JSON encoding represents, and reports absent keys without touching the variable; Mset and Mget do the same for each key in the order given and reject lists of different lengths; Delete removes the key; counters start at 0 and lose no increment, also under concurrent clients; nothing expires on its own. Errors of the server and broken connections are returned as errors and never panic.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of cache operations over any keys and values by several clients, and all server errors and connection failures",
 "the existing tests need a running server and are not run",
 ["runtime/plugins/redis/cache.go", "runtime/plugins/memcached/cache.go"],
 [("the cache clients", "runtime/plugins/redis, runtime/plugins/memcached")],
 observe=["results of the cache interface against a server that speaks the protocol"])

prop("C41", "Every log call makes exactly one record at its priority",
 "Every call of a logger's Debug, Info, Warn, Error or Logf makes exactly one record with the formatted message at that call's priority, in the order of the calls of each goroutine, also with concurrent callers, and makes none if the priority is not recorded by that logger.",
 ["inputs", "histories", "schedules"],
 "all messages and arguments, all sequences of calls by concurrent goroutines",
 "no test covers the loggers",
 ["runtime/plugins/slogger", "runtime/plugins/opentelemetry/log.go", "runtime/plugins/govector/log.go"],
 [("the loggers", "runtime/plugins/slogger, runtime/plugins/opentelemetry, runtime/plugins/govector")],
 observe=["the records written by the loggers"])

prop("C42", "RabbitMQ queues deliver each item once, in order, equal",
 "Items that one or several clients push to a RabbitMQ queue are popped exactly once each, in the order in which they were pushed, by any client of the queue, as values equal to those pushed; a Pop on an empty queue waits for the next item or for its context to end, and takes no item then. Errors of the server and broken connections are returned as errors and never panic.",
 ["histories", "schedules", "fault_sequences"],
 "all histories of pushes and pops of any values by several clients, and failures of the server",
 "the existing tests need a running server and are not run",
 ["runtime/plugins/rabbitmq/queue.go"],
 [("the queue client", "runtime/plugins/rabbitmq")],
 observe=["popped items against a server that speaks the protocol"])

prop("C43", "The MongoDB client stores and finds what the interface says",
 "Under any history of operations of the NoSQL interface, the MongoDB client leaves in the server exactly the documents that the interface's documentation says, returns the documents found by each query through every way of reading its cursor, reports the right numbers of affected documents, and returns the server's errors as errors without panicking. It agrees with the built-in document store on the operations both offer.",
 ["histories", "fault_sequences"],
 "all histories of inserts, finds, updates, replacements, upserts and deletes over several databases and collections, and all server errors",
 "the existing tests need a running server and are not run",
 ["runtime/plugins/mongodb"],
 [("the client", "runtime/plugins/mongodb")],
 observe=["results of the interface and the server's contents, with a server that speaks the protocol"])
