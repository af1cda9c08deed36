package main

import (
	"fmt"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	dbgCmds["flow"] = func(p *Program, args []string) {
		for _, fn := range p.Funcs {
			nm := p.fnName(fn)
			if !strings.Contains(nm, args[0]) {
				continue
			}
			quiet := len(args) > 1
			start := time.Now()
			var f *Flow
			n := 0
			f = p.newFlow(Client{Return: func(st *State, res []*Term, ins ssa.Instruction) {
				n++
				if !quiet {
					fmt.Println("  return", p.instrPos(ins), res)
					for _, t := range st.Trace() {
						fmt.Println("      ", t)
					}
				}
			}, Event: func(st *State, ev *Event) {
				if !quiet && (ev.Kind == "write" || ev.Kind == "nilderef") {
					fmt.Println("  ", ev.Kind, p.instrPos(ev.Ins), ev.Args)
				}
			}})
			st := f.newState()
			var as []*Term
			for _, pr := range fn.Params {
				as = append(as, f.Param("param:"+pr.Name(), pr.Type()))
			}
			f.Run(st, fn, as, nil)
			fmt.Println(nm, "paths", f.Paths, "states", f.states, "steps", f.steps, "fns", len(f.Fns), time.Since(start).Round(time.Millisecond))
			for _, pb := range f.Problem {
				fmt.Println("   PROBLEM", pb)
			}
		}
	}
}
