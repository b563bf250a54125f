// Command index decides the properties of the index, of the OpenCorpora loader and of the commands.
package main

import (
	"os"

	"github.com/amarin/logging"

	"github.com/amarin/gomorphy/verif/pbt"
)

func main() {
	logging.MustInit()
	if spec := os.Getenv("VERIF_CHILD"); spec != "" {
		child(spec)
		return
	}
	pbt.Main(i01(), i02(), i03(), i04(), i05(), i06(), i07(), i08(), i09(), i10(), i11(), o10(),
		o01(), o02(), o03(), o04(), o05(), o06(), o07(), o08(), o09(), c01(), c02())
}
