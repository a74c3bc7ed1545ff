module verif/harness

go 1.23

require github.com/cespare/goclj v0.0.0

replace github.com/cespare/goclj => /repo
