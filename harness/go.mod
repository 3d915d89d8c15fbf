module verif/harness

go 1.25.0

require (
	github.com/andybalholm/brotli v1.2.1
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0
	github.com/tdewolff/font v0.0.0
	golang.org/x/image v0.39.0
	golang.org/x/text v0.36.0
	pgregory.net/rapid v1.3.0
)

require github.com/tdewolff/parse/v2 v2.8.12 // indirect

replace github.com/tdewolff/font => /repo
