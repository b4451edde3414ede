module verif

go 1.24

require (
	github.com/funny-falcon/go-iproto v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/funny-falcon/go-iproto => /repo
