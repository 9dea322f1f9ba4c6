module verifharness

go 1.26

require (
	github.com/maxnikulin/burl v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/maxnikulin/burl => /repo
