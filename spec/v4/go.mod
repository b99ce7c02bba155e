module verif/spec4

go 1.22.0

require (
	github.com/Masterminds/squirrel v1.1.0
	github.com/yaacov/tree-search-language/v4 v4.0.0
	go.mongodb.org/mongo-driver v1.5.1
	verif/gh v0.0.0
)

require (
	github.com/antlr/antlr4 v0.0.0-20190518164840-edae2a1c9b4b // indirect
	github.com/go-stack/stack v1.8.0 // indirect
	github.com/lann/builder v0.0.0-20180802200727-47ae307949d0 // indirect
	github.com/lann/ps v0.0.0-20150810152359-62de8c46ede0 // indirect
)

replace github.com/yaacov/tree-search-language/v4 => /repo/v4

replace verif/gh => ../gh
