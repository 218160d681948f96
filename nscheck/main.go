package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var verifDir = "/verif"

func main() {
	if exe, err := os.Executable(); err == nil {
		if d := filepath.Dir(filepath.Dir(exe)); fileExists(filepath.Join(d, "MANIFEST.json")) {
			verifDir = d
		}
	}
	if d := os.Getenv("NSCHECK_VERIF"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("NSCHECK_REPO"); d != "" {
		repoDir = d
	}
	args := os.Args[1:]
	if len(args) > 0 && args[0] == "dump" {
		dumpMain(args[1:])
		return
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	var ids []string
	for _, a := range args {
		if a == "-tier=thorough" {
			tier = "thorough"
			continue
		}
		ids = append(ids, a)
	}
	p, err := load(repoDir)
	sort.Slice(checks, func(i, j int) bool { return checks[i].ID < checks[j].ID })
	out := filepath.Join(verifDir, "evidence")
	if d := os.Getenv("NSCHECK_OUT"); d != "" {
		out = d
	}
	rc := 0
	found := false
	for _, ch := range checks {
		if len(ids) == 0 || ids[0] == "all" || contains(ids, ch.ID) {
			found = true
			if r := runCheck(p, ch, err, tier, out); r > rc {
				rc = r
			}
		}
	}
	if !found {
		fmt.Println("no such check:", strings.Join(ids, " "))
		rc = 2
	}
	os.Exit(rc)
}

func fileExists(f string) bool {
	_, err := os.Stat(f)
	return err == nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// dumpMain prints the paths of functions, for debugging.
func dumpMain(args []string) {
	p, err := load(repoDir)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	m := newMachine(p)
	if o := os.Getenv("OPAQUE"); o != "" {
		m.opaque = func(f *ssa.Function) bool { return contains(strings.Split(o, ","), shortFn(f)) }
	}
	for _, fn := range p.funcs {
		if len(args) > 0 && shortFn(fn) != args[0] {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if u, ok := r.(undecided); ok {
						fmt.Println("UNDECIDED", fn, u.msg)
						return
					}
					panic(r)
				}
			}()
			var ts []*Term
			for i := range fn.Params {
				ts = append(ts, paramTerm(fn, i))
			}
			outs := m.Run(fn, ts, nil, newState(m))
			fmt.Println(shortFn(fn), len(outs), "paths", m.steps)
			if len(args) > 0 {
				for _, o := range outs {
					dump(o)
				}
			}
		}()
	}
}

func dump(o *State) {
	fmt.Println("--- path status", o.status)
	var rec func(evs []*Event, ind string)
	rec = func(evs []*Event, ind string) {
		for _, e := range evs {
			if e.Kind == EvStore && e.Fresh && os.Getenv("ALL") == "" {
				continue
			}
			fmt.Println(ind, shortName(e.String()))
			if e.Kind == EvLoopStart {
				fmt.Println(ind, "  LOOP", e.Loop.Kind, e.Loop.Over, "full", e.Loop.Full, "early", e.Loop.Early)
				for i, sg := range e.Loop.Segs {
					fmt.Println(ind, "  seg", i, sg.Facts)
					rec(sg.Events, ind+"      ")
				}
			}
			if e.Kind == EvLoopEnd {
				fmt.Println(ind, "  normal", e.Normal)
			}
		}
	}
	rec(o.events, "  ")
	fmt.Println("  facts:", o.flist)
	var r []string
	for _, t := range o.ret {
		r = append(r, shortName(t.String()))
	}
	fmt.Println("  ret:", strings.Join(r, "; "))
}
