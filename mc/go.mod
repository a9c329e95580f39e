module mc

go 1.23

require (
	github.com/urban-wombat/gotables v0.0.0
	gopkg.in/yaml.v3 v3.0.1
)

require github.com/urban-wombat/util v0.0.0-20200128001753-cf82c8fffcc9 // indirect

replace github.com/urban-wombat/gotables => /repo
