module vharness

go 1.23.4

require helena v0.0.0

require golang.org/x/exp v0.0.0-20250408133849-7e4ce0ab07d0

replace helena => /repo/src
