module verif/harness

go 1.25

require (
	gopkg.in/yaml.v3 v3.0.1
	pgregory.net/rapid v1.3.0
	github.com/anishathalye/porcupine v1.3.1
)
