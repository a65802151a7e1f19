module verifharness

go 1.23

require (
	github.com/hound-search/hound v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/blang/semver/v4 v4.0.0 // indirect
	golang.org/x/mod v0.10.0 // indirect
)

replace github.com/hound-search/hound => /repo

replace pgregory.net/rapid => ./third/rapid

godebug default=go1.21
