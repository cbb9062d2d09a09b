module verif/harness

go 1.27

require (
	github.com/botlink/go-mavlink2 v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/botlink/go-mavlink2 => /repo
