module verifsim

go 1.25

require github.com/waj334/tinygo-mqtt v0.0.0

replace github.com/waj334/tinygo-mqtt => /repo
