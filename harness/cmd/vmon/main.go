// Command vmon runs the monitors of one property.
package main

import (
	"os"

	"verif/harness/mon"
	"verif/harness/props"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-pid-fault" {
		props.PIDFault(os.Args[2])
		return
	}
	mon.Main(props.All())
}
