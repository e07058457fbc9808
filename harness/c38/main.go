// C38: the templates of stl/gp, instantiated for other options and element types, keep
// the contracts of the containers.
package main

import "gxv/units"

func main() { units.Main("C38") }
