package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	debug.SetGCPercent(300)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsym check <property> | run <harness> [params] | list")
		os.Exit(2)
	}
	if pf := os.Getenv("VERIF_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		go func() {
			time.Sleep(profSecs())
			pprof.StopCPUProfile()
			f.Close()
			os.Exit(3)
		}()
	}
	switch os.Args[1] {
	case "run":
		devRun(os.Args[2:])
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(doCheck(os.Args[2], tier))
	case "replay":
		os.Exit(doReplay(os.Args[2]))
	}
}

func devRun(args []string) {
	tmp, _ := os.MkdirTemp("", "vsym")
	defer os.RemoveAll(tmp)
	ld, err := Load(tmp)
	if err != nil {
		fmt.Println("load:", err)
		return
	}
	if len(ld.dropped) > 0 {
		fmt.Println("dropped:", ld.dropped)
	}
	to := 60
	if v := os.Getenv("VERIF_TO"); v != "" {
		to, _ = strconv.Atoi(v)
	}
	var specs []RunSpec
	for _, a := range args {
		p := strings.Split(a, ",")
		s := RunSpec{H: p[0], Timeout: to}
		for _, q := range p[1:] {
			v, _ := strconv.ParseInt(q, 10, 64)
			s.Params = append(s.Params, v)
		}
		specs = append(specs, s)
	}
	for _, s := range specs {
		r := RunHarness(ld, s)
		fmt.Printf("%s: err=%q steps=%d %.1fs queries=%d solver=%.1fs vacuous=%v\n", s, r.Err, r.Steps, r.Secs, r.Queries, r.SolverS, r.Vacuous)
		for _, o := range r.Obs {
			fmt.Printf("   %-12s %s (%s %.1fs) %s\n", o.stat, o.label, o.solver, o.secs, o.pos)
			if o.stat == "sat" {
				fmt.Println("      ", r.assign(o))
			}
		}
		for l, v := range r.Reach {
			fmt.Println("   reach", l, v)
		}
	}
}

func profSecs() time.Duration {
	if n, err := strconv.Atoi(os.Getenv("VERIF_PROFS")); err == nil {
		return time.Duration(n) * time.Second
	}
	return 30 * time.Second
}
