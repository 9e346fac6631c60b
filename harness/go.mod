module etxemon

go 1.20

require (
	github.com/alecthomas/participle/v2 v2.0.0-alpha8
	github.com/hexbee-net/etxe v0.0.0
)

require (
	github.com/alecthomas/participle v0.7.1 // indirect
	github.com/alecthomas/repr v0.0.0-20181024024818-d37bc2a10ba1 // indirect
)

replace github.com/hexbee-net/etxe => /repo
