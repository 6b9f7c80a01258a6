package main

import (
	"fmt"
	"os"
	"strings"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc func NAME... | check PROPERTY")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "hints":
		os.Exit(cmdHints())
	case "func":
		cmdFunc(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2]))
	case "fuzz":
		os.Exit(cmdFuzz(os.Args[2:]))
	default:
		os.Exit(2)
	}
}

func cmdFunc(names []string) {
	repo, cdir := env("GOVC_REPO", "/repo"), env("GOVC_CONTRACTS", "/verif/contracts")
	w, err := LoadWorld(repo, cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	for _, d := range w.Dropped {
		fmt.Println("dropped:", d)
	}
	cons := CollectContracts(w)
	for _, d := range cons.Missing {
		fmt.Println("missing:", d)
	}
	var list []string
	for _, n := range names {
		if n == "all" {
			list = append(list, sortedKeys(cons.byName)...)
			continue
		}
		if strings.HasSuffix(n, "*") {
			for _, k := range sortedKeys(cons.byName) {
				if strings.HasPrefix(k, strings.TrimSuffix(n, "*")) {
					list = append(list, k)
				}
			}
			continue
		}
		list = append(list, n)
	}
	for _, n := range list {
		con := cons.byName[n]
		if con == nil {
			fmt.Println(n, "no contract")
			continue
		}
		if con.Trusted != "" {
			fmt.Println(n, "trusted:", con.Trusted)
			continue
		}
		r := Verify(w, cons, con, quickTier)
		printResult(r)
	}
}

func printResult(r *Result) {
	n, ok := 0, 0
	for _, o := range r.Obls {
		if o.Kind == "cover" {
			continue
		}
		n++
		if o.Status == "valid" {
			ok++
		}
	}
	fmt.Printf("%-50s %-7s %d/%d rounds=%d %v %s\n", r.Func, r.Kind, ok, n, r.Rounds, r.SolverMS, r.Err)
	for _, u := range r.Unreached {
		fmt.Println("   unreachable", u)
	}
	for _, u := range r.Vacuous {
		fmt.Println("   vacuous: not", u)
	}
	for _, o := range r.Obls {
		if o.Kind == "cover" {
			if o.Status == "vacuous" {
				fmt.Println("   VACUOUS", o.Name)
			}
			continue
		}
		if o.Status != "valid" {
			fmt.Printf("   open %s [%s] %s\n", o.Kind, o.Pos, o.Name)
			if os.Getenv("GOVC_SHOW") != "" {
				fmt.Println("      goal", r.x.t.Show(o.Goal, 8))
				fmt.Println("      pc  ", r.x.t.Show(o.PC, 8))
			}
		}
	}
	if os.Getenv("GOVC_KEPT") != "" {
		for _, k := range r.Kept {
			fmt.Println("   kept", k)
		}
	}
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
