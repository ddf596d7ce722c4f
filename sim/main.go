// Command verifsim runs the deterministic simulations.
package main

import (
	"verifsim/drive"
	"verifsim/worlds"
)

func main() { drive.Main(worlds.Props()) }
