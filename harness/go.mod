module verif/harness

go 1.23

require (
	gopkg.in/yaml.v3 v3.0.1
	pgregory.net/rapid v1.3.0
)

// the version yot itself uses, as a second reader and as the reference renderer of comments
require yamlold.example v0.0.0

replace yamlold.example => gopkg.in/yaml.v3 v3.0.0-20210107192922-496545a6307b
