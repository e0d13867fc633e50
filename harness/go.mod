module boocheck

go 1.22.0

require (
	github.com/rmera/boo v0.0.0
	gonum.org/v1/gonum v0.15.0
	pgregory.net/rapid v1.3.0
)

replace github.com/rmera/boo => /repo
