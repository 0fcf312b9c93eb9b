package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

func flag2(s string) (a, b int) {
	if _, err := fmt.Sscanf(s, "%d:%d", &a, &b); err != nil {
		fmt.Fprintln(os.Stderr, "bad range", s)
		os.Exit(3)
	}
	return
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: driver gen|run|families [flags]")
	os.Exit(3)
}

func main() {
	debug.SetMaxStack(128 << 20)
	if len(os.Args) < 2 {
		usage()
	}
	fs := flag.NewFlagSet("driver", flag.ExitOnError)
	famName := fs.String("fam", "", "families, comma separated; programs cycle through them")
	seed := fs.Int64("seed", 1, "seed")
	rng := fs.String("range", "0:10", "program numbers from:to")
	many := fs.Bool("many", false, "programs with many variables")
	in := fs.String("in", "", "programs to run (ndjson)")
	out := fs.String("out", "", "trace file")
	progs := fs.String("progs", "", "where to write the programs run (ndjson)")
	marker := fs.String("marker", "", "sync mode: file naming the step about to run")
	fs.Parse(os.Args[2:])

	open := func(p string) (*bufio.Writer, func()) {
		if p == "" {
			return nil, func() {}
		}
		f, err := os.Create(p)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		w := bufio.NewWriterSize(f, 1<<20)
		return w, func() { w.Flush(); f.Close() }
	}
	tw, tclose := open(*out)
	pw, pclose := open(*progs)
	var mark func(Event)
	if *marker != "" {
		mark = func(e Event) {
			b, _ := json.Marshal(e)
			os.WriteFile(*marker, append(b, '\n'), 0o644)
			if tw != nil {
				tw.Flush()
			}
		}
	}
	// in sync mode every event is written before the next step
	finish := func(r *Runner) {
		if tw != nil && mark == nil {
			if err := writeEvents(tw, r.out); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
		}
		if pw != nil {
			b, err := json.Marshal(r.prog)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			pw.Write(b)
			pw.WriteByte('\n')
		}
	}
	switch os.Args[1] {
	case "families":
		names := []string{}
		for n := range families {
			names = append(names, n)
		}
		sort.Strings(names)
		fmt.Println(strings.Join(names, " "))
	case "gen":
		a, b := flag2(*rng)
		fams := strings.Split(*famName, ",")
		hangs := 0
		for i := a; i < b; i++ {
			f, ok := families[fams[i%len(fams)]]
			if !ok {
				fmt.Fprintln(os.Stderr, "no family", fams[i%len(fams)])
				os.Exit(3)
			}
			syncOut = nil
			if mark != nil {
				syncOut = tw
			}
			r := Generate(f, *seed, i, *many, mark)
			finish(r)
			if r.dead {
				hangs++
				if hangs >= 3 {
					break
				}
			}
		}
	case "run", "par":
		ps, err := ReadPrograms(*in)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		hangs := 0
		for _, p := range ps {
			if mark != nil {
				syncOut = tw
			}
			if os.Args[1] == "par" {
				q, ok := concurrent(p, *seed)
				if !ok {
					continue
				}
				p = q
				if mark != nil && pw != nil { // written before it runs: it may end the process
					b, _ := json.Marshal(p)
					pw.Write(append(b, '\n'))
					pw.Flush()
				}
			}
			r := newRunner(p, mark)
			r.replay = true
			for _, s := range p.Steps {
				if r.dead {
					break
				}
				r.step(s)
			}
			finish(r)
			if r.dead {
				hangs++
				if hangs >= 3 {
					break
				}
			}
		}
	default:
		usage()
	}
	tclose()
	pclose()
}
