package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strings"
	"sync"
	"time"
)

var loadPatterns = []string{
	"./arwen/...", "./math", "./crypto/...", "./ipc/...", "./mandos-go/...", "./mock/world", "./config", "./fuzz/weightedroulette", "./wasmer",
	"github.com/ElrondNetwork/elrond-vm-common", "github.com/ElrondNetwork/elrond-vm-common/parsers",
}

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(checkMain(os.Args[2:]))
	}
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contracts directory")
	only := flag.String("f", "", "comma separated function name substrings")
	verbose := flag.Bool("v", false, "verbose")
	dump := flag.String("ssa", "", "print the SSA of a function")
	list := flag.String("list", "", "list functions with prefix")
	jobs := flag.Int("j", 8, "parallel tasks")
	budget := flag.Int("t", 120, "seconds per function")
	flag.Parse()
	P, err := loadProgram(*repo, loadPatterns)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *dump != "" {
		if fn := P.funcs[*dump]; fn != nil {
			fn.WriteTo(os.Stdout)
		} else {
			fmt.Println("no such function")
		}
		return
	}
	if *list != "" {
		var ks []string
		for k := range P.funcs {
			if strings.HasPrefix(k, *list) {
				ks = append(ks, k)
			}
		}
		sortStrings(ks)
		for _, k := range ks {
			fmt.Println(k, len(P.funcs[k].Blocks), len(P.funcs[k].Params))
		}
		return
	}
	S, err := loadSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var cs []*Contract
	for _, n := range S.Order {
		c := S.C[n]
		if c.Trusted || c.Inline {
			continue
		}
		if *only != "" {
			hit := false
			for _, o := range strings.Split(*only, ",") {
				if strings.HasPrefix(o, "@") {
					if strings.TrimSuffix(filepath.Base(c.File), ".spec") == o[1:] {
						hit = true
					}
				} else if strings.HasPrefix(o, "#") {
					for _, p := range c.Props {
						hit = hit || p == o[1:]
					}
				} else if strings.Contains(n, o) {
					hit = true
				}
			}
			if !hit {
				continue
			}
		}
		cs = append(cs, c)
	}
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	rs := runAll(P, S, cs, *jobs, time.Duration(*budget)*time.Second)
	bad := 0
	for _, r := range rs {
		fmt.Printf("%-9s %-60s oblig=%d/%d paths=%d loops=%d quick=%d %dms %s\n", r.Status, r.Func, r.Proved, r.Total, r.Paths, r.Loops, r.Quick, r.Ms, r.Err)
		if r.Status != "proved" {
			bad++
			seen := map[string]int{}
			for _, f := range r.Failed {
				seen[f.Name]++
				if seen[f.Name] > 2 && !*verbose {
					continue
				}
				fmt.Printf("    %-8s %s  -- %s (%dms)\n", f.Status, f.Name, f.Detail, f.Ms)
				if *verbose {
					for _, p := range f.Path {
						fmt.Println("          ", p)
					}
					if len(f.Model) > 0 {
						fmt.Println("           model:", f.Model)
					}
					if f.Query != "" {
						fmt.Println("           query:", f.Query)
					}
				}
			}
			for _, n := range r.Notes {
				fmt.Println("      note:", n)
			}
		}
		if *verbose {
			fmt.Println("    inlined:", r.Inlined)
			fmt.Println("    uses:", r.Uses)
			fmt.Println("    trust:", r.Trust)
		}
	}
	fmt.Printf("%d functions, %d not proved\n", len(rs), bad)
	if bad > 0 {
		pprof.StopCPUProfile()
		os.Exit(1)
	}
}

func runAll(P *Program, S *Specs, cs []*Contract, jobs int, budget time.Duration) []*FuncResult {
	rs := make([]*FuncResult, len(cs))
	var wg sync.WaitGroup
	sem := make(chan bool, jobs)
	for i, c := range cs {
		wg.Add(1)
		go func(i int, c *Contract) {
			defer wg.Done()
			sem <- true
			rs[i] = verifyFunction(P, S, c, budget)
			<-sem
		}(i, c)
	}
	wg.Wait()
	return rs
}
