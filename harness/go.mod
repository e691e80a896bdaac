module vmon

go 1.25.0

require (
	github.com/Velocidex/ordereddict v0.0.0-20250821063524-02dc06e46238
	www.velocidex.com/golang/vfilter v0.0.0
)

require (
	github.com/Velocidex/json v0.0.0-20220224052537-92f3c0326e5a // indirect
	github.com/Velocidex/yaml/v2 v2.2.8 // indirect
	github.com/alecthomas/participle/v2 v2.1.4 // indirect
	github.com/alecthomas/repr v0.5.4 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/text v0.37.0 // indirect
)

replace www.velocidex.com/golang/vfilter => /repo
