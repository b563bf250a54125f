// Command dag decides the properties of pkg/dag and pkg/common: D01..D05, P01.
package main

import "github.com/amarin/gomorphy/verif/pbt"

func main() {
	pbt.Main(d01(), d02(), d03(), d04(), d05(), d06(), p01())
}
