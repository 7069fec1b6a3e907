package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Rule decides one property.
type Rule struct {
	run         func(r *Report)
	assumptions []string
	explanation string
}

var rulesByID = map[string]*Rule{}

func main() {
	repo := flag.String("repo", envOr("DISTCLUS_REPO", "/repo"), "repository to analyse")
	out := flag.String("out", "/verif", "directory of the evidence and known findings")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	flag.Parse()
	args := flag.Args()
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	if len(args) == 0 {
		fmt.Println("usage: distcheck check ID... | dump FUNC")
		os.Exit(2)
	}
	root, _ := filepath.Abs(*repo)
	switch args[0] {
	case "check":
		ids := args[1:]
		if len(ids) == 1 && ids[0] == "all" {
			ids = nil
			for id := range rulesByID {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		code := 0
		for _, id := range ids {
			if runCheck(root, *out, id, *tier, seed) != 0 {
				code = 1
			}
		}
		os.Exit(code)
	case "dump":
		p, err := loadProg(root)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		dump(p, args[1])
	case "effects":
		p, err := loadProg(root)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		for _, fn := range p.funcs {
			if len(args) > 1 && short(fn.String()) != args[1] && fn != p.Func(args[1]) || fn.Parent() != nil {
				continue
			}
			a := p.aliasOf(fn)
			fmt.Println("##", short(fn.String()), "functions", len(a.fns), "objects", len(a.objs), len(a.unknown))
			for _, w := range a.Writes() {
				fmt.Println("   ", w.pos, w.kind, w.l.o.name, w.l.path)
			}
			for i := 0; i < fn.Signature.Results().Len(); i++ {
				for _, l := range sortedLocs(a.reach(a.Results(fn, i))) {
					if l.o.arg {
						fmt.Println("    result", i, l.o.name, l.path)
					}
				}
			}
		}
	case "conc":
		p, err := loadProg(root)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		if len(args) > 1 {
			for _, r := range p.conc().roots {
				if strings.Contains(r.Name, args[1]) {
					fmt.Println("ROOT", r.Kind, r.Name)
					dumpPaths(p, r.E, r.E.paths)
				}
			}
			return
		}
		dumpConc(p)
	case "rules":
		var ids []string
		for id := range rulesByID {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id + "\t" + rulesByID[id].explanation)
		}
	case "list":
		var ids []string
		for id := range rulesByID {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

var loaded *Prog

// runCheck never ends without an answer: what can not be analysed is reported as a violation
func runCheck(root, out, id, tier string, seed int) (code int) {
	start := time.Now()
	defer func() {
		if x := recover(); x != nil {
			fmt.Println("internal:", x)
			fmt.Println(string(debug.Stack()))
			code = writeViolations(out, id, []*Finding{{Key: "internal/panic", Msg: fmt.Sprint("analysis failed: ", x)}})
		}
	}()
	rule := rulesByID[id]
	if rule == nil {
		fmt.Println("no rule for", id)
		return 2
	}
	if loaded == nil {
		p, err := loadProg(root)
		if err != nil {
			return writeViolations(out, id, []*Finding{{Key: "internal/load", Msg: err.Error()}})
		}
		loaded = p
	}
	r := newReport(loaded, id)
	rule.run(r)
	return r.finish(out, tier, seed, start, rule.assumptions, rule.explanation)
}

func dump(p *Prog, name string) {
	fn := p.Func(name)
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	o := Options{Opaque: map[string]bool{}}
	for _, n := range strings.Fields(os.Getenv("OPAQUE")) {
		if f := p.Func(n); f != nil {
			o.Opaque[f.String()] = true
		}
	}
	e := p.NewExec(o)
	paths := e.Run(fn, params(fn), nil, nil)
	dumpPaths(p, e, paths)
}

func dumpPaths(p *Prog, e *Exec, paths []*Path) {
	for i, pa := range paths {
		fmt.Printf("== path %d: %s %s\n", i, pa.Kind, pa.Why)
		for _, l := range pa.St.facts.all() {
			fmt.Println("   fact", l)
		}
		for _, ev := range pa.St.trace.Events() {
			fmt.Printf("   %s %s %s recv=%v args=%v res=%v\n", p.pos(ev.Pos), ev.Kind, ev.Name, ev.Recv, ev.Args, ev.Res)
		}
		fmt.Println("   res", pa.Res)
		if pa.Kind == "return" {
			for _, r := range pa.Res {
				root, _ := sliceRoot(r)
				for k, ls := range pa.St.regs {
					if k.Args[0] == root {
						for _, l := range ls {
							fmt.Println("   region", k.Aux, l.kind, l.a, l.b, l.val, l.ver)
						}
					}
				}
			}
		}
	}
	for _, in := range e.insts {
		fmt.Println("loop", in.ID, "N=", in.N, "guard", in.Guard, "backs", len(in.Backs), "exits", len(in.Exits), "cands", in.Cands)
		for _, v := range in.Vars {
			fmt.Println("   var", v.name(), v.Class, "init", v.Init, "var", v.Var)
			for _, b := range in.Backs {
				fmt.Println("       next", b.Next[v])
			}
		}
		for i, b := range in.Backs {
			fmt.Println("   back", i)
			for _, l := range b.St.facts.all() {
				fmt.Println("      fact", l)
			}
			for k, ls := range b.St.regs {
				for _, l := range ls {
					fmt.Println("      region", k, l.kind, l.a, l.b, l.val, l.ver)
				}
			}
		}
	}
	fmt.Println(len(paths), "paths", e.states, "states", "undecided", e.undecided)
}

func dumpConc(p *Prog) {
	c := p.conc()
	for _, r := range c.roots {
		fmt.Println(r.Kind, r.Name, "paths", len(r.E.paths), "insts", len(r.E.insts), "undecided", r.E.undecided)
		if r.Kind == "go" {
			fmt.Println("   ", clip(r.key(), 600))
		}
	}
	for f, g := range c.guards {
		var ns []string
		for l := range g {
			ns = append(ns, l.Name())
		}
		fmt.Println("guard", f.Name(), ns)
	}
	fmt.Println(c.roles.statusCh, c.roles.notifCh, c.roles.ackCh, c.roles.run)
}
