// C43: the generators made from math/rand/rand.gp and rand.gpg (the check of C29 on them).
package main

import "gxv/units"

func main() { units.Main("C43") }
