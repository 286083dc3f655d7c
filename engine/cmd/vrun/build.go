package main

import (
	"fmt"

	"verif/engine/drv"
	"verif/engine/vm"
)

func buildNative(p *drv.Paths, prog *vm.Program) {
	bin, err := p.BuildNative(drv.HarnessNames(prog))
	fmt.Println(bin, err)
}
