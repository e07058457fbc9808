// C39: the singly linked list template with GOGP_HasTail (the checks C09 and C10 also
// exercise the tail operations where the list has them).
package main

import "gxv/units"

func main() { units.Main("C39") }
