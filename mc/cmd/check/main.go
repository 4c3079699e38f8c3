// Command check runs the check of one property.
package main

import (
	_ "vmc/checks"
	"vmc/core"
)

func main() { core.Main() }
