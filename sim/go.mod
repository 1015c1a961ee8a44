module vsim

go 1.24.2

require gopkg.in/yaml.v3 v3.0.1
