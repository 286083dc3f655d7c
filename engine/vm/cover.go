package vm

import (
	"fmt"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Cover, if set, records which basic blocks of noise's own functions were
// interpreted (development: what no harness reaches).
var Cover map[string]*bool

var coverLock sync.Mutex

func coverPoint(fn *ssa.Function, b *ssa.BasicBlock) func(fr *frame) {
	pos := fn.Pos()
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	p := fn.Prog.Fset.Position(pos)
	path := fn.Pkg.Pkg.Path()
	if !strings.Contains(path, "perlin-network/noise") || strings.Contains(path, "/verif") {
		return func(fr *frame) {}
	}
	key := fmt.Sprintf("%s:%d %s #%d", filepath.Base(p.Filename), p.Line, fn.Name(), b.Index)
	coverLock.Lock()
	hit := Cover[key]
	if hit == nil {
		hit = new(bool)
		Cover[key] = hit
	}
	coverLock.Unlock()
	return func(fr *frame) {
		if !*hit {
			*hit = true
		}
	}
}
