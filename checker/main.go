// Command checker decides the properties of /verif/properties.jsonl on the
// source of the repository, without running it.
package main

import (
	"fmt"
	"go/token"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type checkFunc func(p *Program, r *Report)

var checks = map[string]checkFunc{}

func register(id string, f checkFunc) { checks[id] = f }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runCheck(id string, p *Program, loadErr error) int {
	r := newReport(id)
	r.p = p
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.undecided("internal", "checker", token.NoPos, fmt.Sprintf("the analysis failed: %v\n%s", e, debug.Stack()))
			}
		}()
		f, ok := checks[id]
		if !ok {
			r.undecided("internal", "checker", token.NoPos, "unknown property "+id)
			return
		}
		if loadErr != nil {
			r.undecided("load", "repository", token.NoPos, loadErr.Error())
			return
		}
		f(p, r)
	}()
	return r.finish(verifDir())
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property>... | all")
		os.Exit(2)
	}
	ids := os.Args[1:]
	if ids[0] == "walk" {
		debugWalk(ids[1:])
		return
	}
	if ids[0] == "all" {
		ids = nil
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	p, err := loadProgram()
	code := 0
	for _, id := range ids {
		t := time.Now()
		if c := runCheck(id, p, err); c != 0 {
			code = 1
		}
		if len(ids) > 1 {
			fmt.Printf("[%s %.1fs]\n", id, time.Since(t).Seconds())
		}
	}
	os.Exit(code)
}

// debugWalk explores the named functions and prints what was seen.
func debugWalk(names []string) {
	p, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	r := newReport("X00")
	r.p = p
	for _, n := range names {
		for _, fn := range p.funcs {
			if n != "ALL" && fnName(fn) != n {
				continue
			}
			t := time.Now()
			paths := 0
			w := newWalker(p, r, Hooks{})
			w.h.Exit = func(st *State, fn *ssa.Function, ret []*Term) bool {
				paths++
				if n != "ALL" {
					fmt.Println("exit", ret)
					for _, l := range r.path(st) {
						fmt.Println("     ", l)
					}
				}
				return false
			}
			w.start(fn, nil)
			fmt.Printf("%-70s steps=%d states=%d exits=%d %.2fs\n", fnName(fn), w.steps, w.states, paths, time.Since(t).Seconds())
		}
	}
	for _, k := range r.order {
		fmt.Println(r.obs[k])
	}
}
