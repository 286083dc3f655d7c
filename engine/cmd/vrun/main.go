// vrun explores one harness and prints what happened (development tool).
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"verif/engine/drv"
	"verif/engine/vm"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	hd := flag.String("h", "/verif/harness", "")
	paths := flag.Int("paths", 0, "")
	tm := flag.Duration("time", time.Minute, "")
	work := flag.Int("j", 8, "")
	mem := flag.Bool("mem", false, "")
	race := flag.Bool("race", false, "")
	prof := flag.String("prof", "", "")
	fns := flag.Bool("fns", false, "")
	verb := flag.Bool("v", false, "")
	cover := flag.String("cover", "", "write block coverage to this file")
	solver := flag.String("solver", "z3-new", "")
	params := map[string]int{}
	flag.Func("p", "parameter, name=value (repeatable)", func(s string) error {
		var k string
		var v int
		i := strings.IndexByte(s, '=')
		if i < 0 {
			return fmt.Errorf("want name=value")
		}
		k = s[:i]
		_, err := fmt.Sscan(s[i+1:], &v)
		params[k] = v
		return err
	})
	nat := flag.String("native", "", "")
	flag.BoolVar(&vm.Trace, "trace", false, "")
	flag.Parse()
	if *cover != "" {
		vm.Cover = map[string]*bool{}
		defer func() {
			f, _ := os.Create(*cover)
			for k, h := range vm.Cover {
				fmt.Fprintln(f, *h, k)
			}
			f.Close()
		}()
	}
	p := &drv.Paths{Repo: *repo, Harness: *hd}
	prog, err := p.Load()
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Println("loaded in", prog.LoadTime)
	if *nat != "" {
		p.Work = *nat
		buildNative(p, prog)
	}
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	for _, name := range flag.Args() {
		fn := drv.Harness(prog, name)
		if fn == nil {
			fmt.Println("no harness", name)
			continue
		}
		ex := vm.NewExplorer(prog, fn, vm.Config{Workers: *work, MaxPaths: *paths, MaxTime: *tm, Params: params, Solver: []string{*solver, "-in"}, MemPoints: *mem, Race: *race})
		if err := ex.Run(); err != nil {
			fmt.Println("run:", err)
		}
		fmt.Println(name, ex.Summary())
		fmt.Println("  reached", ex.Reached, "labels", len(ex.Labels), "notes", ex.Notes, "maxdepth", ex.MaxDepth)
		if *verb {
			fmt.Println("  init notes:", ex.InitNotes)
		}
		for _, v := range ex.Violations {
			fmt.Printf("  VIOL %s %s: %s delays=%v\n", v.Kind, v.Label, v.Detail, v.Delays)
			if *verb {
				fmt.Println(v.Stack, v.Model)
			}
		}
		if *fns {
			var l []string
			for f, n := range ex.Functions {
				l = append(l, fmt.Sprintf("%10d %s", n, f))
			}
			sort.Strings(l)
			for _, s := range l {
				fmt.Println(s)
			}
		}
		if *verb {
			for i, s := range ex.Samples {
				if i < 4 {
					fmt.Println("  sample", s.Observe, s.Delays, s.Model)
				}
			}
		}
	}
}
