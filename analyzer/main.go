package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
)

// checks maps property ids to the analysis that decides them.
var checks = map[string]func(P *Prog, r *Result){}

func main() {
	prop := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "repository under analysis")
	verif := flag.String("verif", "/verif", "framework directory")
	dbg := flag.String("debug", "", "debug output selector")
	flag.StringVar(&onlyOp, "op", "", "restrict to one operation (debugging)")
	flag.Parse()
	debugSel = *dbg
	if *prop == "list" {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return
	}
	c := checks[*prop]
	if c == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := newResult(*prop, tier)
	P, err := loadProg(*repo)
	if err != nil {
		r.Explanation = "the program could not be resolved, so nothing is decided"
		r.fail("load", "resolve program", "-", err.Error())
		os.Exit(r.finish(*verif, seed))
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				// the analyser itself failed: nothing further is decided, and nothing is alleged
				r.Notes = append(r.Notes, fmt.Sprintf("undecided: internal: %v\n%s", x, debug.Stack()))
				fmt.Println("UNDECIDED (internal):", x)
			}
		}()
		r.Counts["functions_in_package"] = len(P.Funcs)
		c(P, r)
	}()
	os.Exit(r.finish(*verif, seed))
}

var debugSel string
