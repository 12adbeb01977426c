package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

var props = map[string]func(*Ctx, *Report, bool){}

var noGraph bool

func main() {
	repo := flag.String("repo", "/repo", "")
	verif := flag.String("verif", "/verif", "")
	prop := flag.String("prop", "", "comma separated ids, or all")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "")
	dump := flag.String("dump", "", "debugging: print the dependences of matching exported functions")
	freeze := flag.String("freezedeps", "", "write the dependence table to this file")
	flag.BoolVar(&noGraph, "nograph", false, "leave out the comparison of value graphs")
	flag.Parse()
	if *tier == "thorough" {
		evalTime, pairTime = 2*time.Minute, time.Hour
	}
	debug.SetMaxStack(4 << 30)
	if *freeze != "" {
		c, err := load(*repo)
		if err != nil {
			panic(err)
		}
		t, n := depTables(c)
		b, _ := json.MarshalIndent(t, "", " ")
		os.WriteFile(*freeze, append(b, '\n'), 0o644)
		fmt.Println(n, "entries")
		return
	}
	if strings.HasPrefix(*dump, "vg:") {
		dumpVG(*repo, strings.TrimPrefix(*dump, "vg:"))
		return
	}
	if strings.HasPrefix(*dump, "cmp:") {
		dumpCmp(*repo, *verif, strings.TrimPrefix(*dump, "cmp:"))
		return
	}
	if strings.HasPrefix(*dump, "mut:") {
		dumpMut(*repo, *verif, strings.TrimPrefix(*dump, "mut:"))
		return
	}
	if *dump != "" {
		dumpDeps(*repo, *dump)
		return
	}
	start := time.Now()
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for i := 0; i < 100; i++ {
			if id := fmt.Sprintf("P%02d", i); props[id] != nil {
				ids = append(ids, id)
			}
		}
	}
	c, err := load(*repo)
	if c != nil {
		c.Verif = *verif
	}
	rc := 0
	for _, id := range ids {
		r := newReport(id)
		if err != nil {
			r.fail("load", "program", "", err.Error())
		} else if f := props[id]; f == nil {
			fmt.Println("unknown property", id)
			os.Exit(2)
		} else {
			r.Counts["packages"] = len(c.Pkgs)
			r.Counts["functions"] = len(c.Funcs)
			func() {
				defer func() {
					if e := recover(); e != nil {
						fmt.Println("analysis of", id, "stopped:", e, "\n", string(debug.Stack()))
						os.Exit(3)
					}
				}()
				f(c, r, *tier == "thorough")
			}()
		}
		if finish(r, *verif, *tier, start) != 0 {
			rc = 1
		}
		if len(ids) > 1 {
			start = time.Now()
		}
	}
	os.Exit(rc)
}
