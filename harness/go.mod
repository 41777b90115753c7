module verif/harness

go 1.26.0

require (
	github.com/golang/freetype v0.0.0
	golang.org/x/image v0.47.0
)

replace github.com/golang/freetype => /repo
