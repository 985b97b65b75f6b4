// gosym decides properties of Go code by symbolic execution of its SSA form.
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gosym check PROPERTY [quick|thorough] | gosym run PACKAGE HARNESS [quick|thorough] [seconds] | gosym list")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	if r := os.Getenv("GOSYM_REPO"); r != "" {
		repoDir = r
	}
	verif := os.Getenv("GOSYM_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	switch os.Args[1] {
	case "check":
		if len(os.Args) < 3 {
			usage()
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(runCheck(verif, os.Args[2], tier))
	case "list":
		for _, id := range checkIDs() {
			for _, h := range checks[id] {
				fmt.Println(id, h.pkg, h.fn)
			}
		}
	case "run":
		if len(os.Args) < 4 {
			usage()
		}
		h := findHarness(os.Args[2], os.Args[3])
		if h == nil {
			h = &harn{pkg: os.Args[2], fn: os.Args[3]}
		}
		deep := len(os.Args) > 4 && os.Args[4] == "thorough"
		secs := 120
		if len(os.Args) > 5 {
			secs, _ = strconv.Atoi(os.Args[5])
		}
		P, err := Load(verif, repoDir, []string{h.pkg}, h.pkg == "root")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		ex, err := explore(P, h, deep, time.Now().Add(time.Duration(secs)*time.Second), 1, nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Printf("paths=%d instr=%d wall=%v ends=%v complete=%v %s\nreached=%v\nassertions=%v\ninconclusive=%v\nnotes=%v\nsolver=%+v\n", ex.paths, ex.steps, ex.wall.Round(time.Millisecond), ex.aborted, ex.complete(), ex.why, ex.reached, ex.asserted, sortedCounts(ex.incon), sortedCounts(ex.notes), ex.stats)
		for _, v := range ex.viol {
			fmt.Printf("VIOL %s at %s: %s\n  values %v crash=%q/%d/%d concur=%v maporder=%v\n", v.Label, v.Where, v.Detail, v.Values, v.Crash, v.CrashN, v.Partial, v.Concur, v.MapOrder)
			for _, l := range v.Logs {
				fmt.Println("   log", l)
			}
		}
		if os.Getenv("GOSYM_NATIVE") != "" {
			nv := newNative(verif, repoDir, h.pkg)
			defer nv.close()
			for i, v := range ex.viol {
				fmt.Println("native replay:", nv.confirm(h, v, fmt.Sprintf("/tmp/gosym_replay_%d.json", i), deep))
			}
			for _, w := range ex.witness {
				fmt.Println("native trace:", nv.trace(h, w, deep))
			}
		}
	default:
		usage()
	}
}
