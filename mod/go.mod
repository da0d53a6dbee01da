module github.com/adamcolton/parlex

go 1.23

require (
	github.com/stretchr/testify v1.12.1
	github.com/urfave/cli v1.22.17
)

require (
	github.com/cpuguy83/go-md2man/v2 v2.0.7 // indirect
	github.com/russross/blackfriday/v2 v2.1.0 // indirect
	go.yaml.in/yaml/v3 v3.0.5 // indirect
)
