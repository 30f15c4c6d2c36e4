package main

import (
	_ "vharness/checks"
	"vharness/mc"
)

func main() { mc.Main() }
