module github.com/jcorbin/anansi

go 1.21

require github.com/stretchr/testify v1.3.0

require (
	github.com/davecgh/go-spew v1.1.0 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
)
