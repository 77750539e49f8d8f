package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetGCPercent(1000)
	relDepth = envInt("REL", 3)
	if len(os.Args) > 1 && os.Args[1] != "dump" {
		fs := flag.NewFlagSet("checker", flag.ExitOnError)
		id := fs.String("property", "", "the property")
		dir := fs.String("dir", "/verif", "where the evidence goes")
		repo := fs.String("repo", "/repo", "the source")
		fs.Parse(os.Args[1:])
		if f := os.Getenv("CPUPROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			r := runCheck(*id, *dir, *repo)
			pprof.StopCPUProfile()
			os.Exit(r)
		}
		os.Exit(runCheck(*id, *dir, *repo))
	}
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	p, err := loadProgram("/repo", nil)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if len(os.Args) > 3 && os.Args[1] == "dump" {
		dump(p, os.Args[2], os.Args[3], len(os.Args) > 4)
	}
}

func dump(p *Program, pkg, name string, full bool) {
	e := newEngine(p)
	if s := os.Getenv("MAXSTEPS"); s != "" {
		fmt.Sscan(s, &e.maxSteps)
	}
	fn := p.Func(pkg, name)
	if os.Getenv("COARSE") != "" {
		e.coarse = 4
	}
	if os.Getenv("CONTRACT") != "" {
		e.contracts = &contractSet{m: map[*ssa.Function]*contract{}, min: envInt("CMIN", 150), max: 300000}
	}
	e.setup = decoderSetup
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	st := newState()
	args := e.genericArgs(st, fn)
	t := time.Now()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(undecided); ok {
					fmt.Println("UNDECIDED", u.msg)
					return
				}
				panic(r)
			}
		}()
		rets := e.callFn(st, fn, args, nil, nil)
		fmt.Println(len(rets), "partitions", time.Since(t), e.steps, "steps")
		if full {
			for i, r := range rets {
				fmt.Println("----", i, r.v.vkey())
				for o, v := range r.st.mem {
					if !r.st.isDefault(o, v) {
						fmt.Println("   ", o.name, "=", v.vkey())
					}
				}
				fmt.Println("   facts", r.st.f)
				for _, ev := range r.st.trace {
					fmt.Println("   event", ev.key())
				}
			}
		}
	}()
	if e.contracts != nil {
		for f, c := range e.contracts.m {
			if c.ok {
				fmt.Println("contract", funcName(f), c.steps, len(c.groups), len(c.locs))
				for _, l := range c.locs {
					fmt.Println("    changes", l.obj.name, l.field)
					for i, g := range c.groups {
						v := g.st.root(l.obj)
						if l.field >= 0 {
							v = v.(*StructV).field(l.field)
						}
						fmt.Println("       ", i, v.vkey(), sigOf(g.st, v, 0))
						if b, ok := v.(*BufV); ok && len(b.cs) == 1 {
							fmt.Println("          off", g.st.f.rng(b.cs[0].off))
						}
					}
				}
			} else if c.why != "small" {
				fmt.Println("no contract", funcName(f), c.steps, c.why)
			}
		}
	}
	bad := 0
	for _, o := range e.oblSeq {
		if o.failed > 0 {
			bad++
			fmt.Println("FAIL", o.kind, o.where, o.fn, o.expr, o.detail)
		}
	}
	fmt.Println(len(e.oblSeq), "obligations", bad, "failed")
	for l, r := range e.loopsN {
		fmt.Println("loop", p.pos(instrPos(l.header.Instrs[0])), "bounded", r.bounded, "summary", r.summary, "backs", r.backs, "progress", r.progress, r.how)
		for _, s := range r.stuck {
			fmt.Println("   STUCK", s)
		}
	}
	for n, k := range e.notes {
		fmt.Println("note", n, k)
	}
}

// decoderSetup assumes of a decoder what its constructor establishes.
func decoderSetup(st *State, fn *ssa.Function, args []Value) {
	for _, a := range args {
		p, ok := a.(*PtrV)
		if !ok || p.isNil || p.obj == nil {
			continue
		}
		s, ok := st.root(p.obj).(*StructV)
		if !ok {
			continue
		}
		for i := 0; i < s.t.NumFields(); i++ {
			if b, ok := s.field(i).(*PtrV); ok && b.obj != nil && isBufferT(b.obj.typ) {
				st.assume(st.nilCond(b), false)
			}
		}
	}
}

func envInt(n string, d int) int {
	if s := os.Getenv(n); s != "" {
		fmt.Sscan(s, &d)
	}
	return d
}
