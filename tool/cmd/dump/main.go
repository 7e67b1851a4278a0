// Command dump prints the abstract outcomes of a function, for development.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"rdapverif/eng"

	"golang.org/x/tools/go/ssa"
)

func main() {
	dir := flag.String("repo", "/repo", "")
	name := flag.String("fn", "", "function (String())")
	ev := flag.Bool("ev", false, "keep events")
	opq := flag.String("opaque", "", "comma separated names")
	chk := flag.Bool("chk", false, "print failed checks")
	facts := flag.Bool("facts", true, "")
	flag.Parse()
	prog, sp, _, err := eng.Load(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	t0 := time.Now()
	e := eng.New(prog, sp)
	fmt.Println("init", time.Since(t0))
	op := map[string]bool{}
	for _, s := range strings.Split(*opq, ",") {
		op[s] = true
	}
	for _, p := range sp {
		for _, fn := range eng.FuncsOf(p) {
			if fn.String() != *name && fn.RelString(p.Pkg) != *name {
				continue
			}
			t0 := time.Now()
			h := &eng.Hooks{Opaque: func(f *ssa.Function) bool { return op[f.Name()] || op[f.String()] }}
			if *ev {
				h.Keep = func(*eng.Event) bool { return true }
			}
			if *chk {
				h.OnCheck = func(st *eng.State, kind string, ok bool, d string, fr *eng.Frame, in ssa.Instruction) {
					if !ok {
						e.Emit(fmt.Sprintf("CHECK %s %s %s %s", kind, fr.Fn, prog.Fset.Position(in.Pos()), d))
					}
				}
			}
			outs, recs, err := e.Run(fn, h, nil)
			fmt.Println(fn, len(outs), err, time.Since(t0), "states", e.NStates, "blocks", e.NBlocks, "merges", e.NMerges, "calls", e.NCalls, "forced", e.NForced)
			for _, r := range recs {
				fmt.Println(r)
			}
			for i, o := range outs {
				fmt.Println("--", i, o.Panic, o.Rets)
				for _, r := range o.Rets {
					for _, g := range e.Origins[r] {
						fmt.Println("   origin", g.Init, g.Val)
					}
				}
				if *facts {
					fmt.Println("   F:", o.St.FactString())
				}
				if *ev {
					for _, x := range o.St.Trace.Events() {
						fmt.Println("   E:", x.Kind, x.Key, x.Args)
					}
				}
			}
		}
	}
}
