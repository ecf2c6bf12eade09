package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vcg task|list|check ...")
		os.Exit(2)
	}
	if f := os.Getenv("VCG_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		go func() {
			time.Sleep(60 * time.Second)
			pprof.StopCPUProfile()
			w.Close()
		}()
	}
	switch os.Args[1] {
	case "task":
		taskMain(os.Args[2:])
	case "list":
		listMain(os.Args[2:])
	case "check":
		checkMain(os.Args[2:])
	case "replay":
		replayMain(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func listMain(args []string) {
	w, err := loadWorld(verifDir + "/contracts")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sort.Slice(w.all, func(i, j int) bool { return w.all[i].name < w.all[j].name })
	for _, c := range w.all {
		fmt.Println(strings.Join(c.props, ","), c.name)
	}
}

func taskMain(args []string) {
	fs := flag.NewFlagSet("task", flag.ExitOnError)
	verbose := fs.Bool("v", false, "")
	show := fs.Bool("q", false, "show failing goals")
	stage := fs.Int("stage", 0, "")
	par := fs.Int("j", 4, "")
	dir := fs.String("c", verifDir+"/contracts", "")
	fs.Parse(args)
	maxStage = *stage
	w, err := loadWorld(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var ts []*Task
	for _, c := range w.all {
		if matches(c, fs.Args()) && !c.bounded() {
			ts = append(ts, &Task{w: w, contract: c})
		}
	}
	sem := make(chan bool, *par)
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for _, t := range ts {
		t := t
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			t.Run()
			<-sem
			mu.Lock()
			defer mu.Unlock()
			if !printTask(t, *verbose, *show) {
				bad++
			}
		}()
	}
	wg.Wait()
	fmt.Printf("%d tasks, %d bad, %d queries, %.1fs solver\n", len(ts), bad, gstats.queries, float64(gstats.nanos)/1e9)
}

func contains(l []string, s string) bool {
	for _, a := range l {
		if a == s {
			return true
		}
	}
	return false
}

func printTask(t *Task, verbose, show bool) bool {
	n, ok := 0, 0
	for _, o := range t.obls {
		n++
		if o.status == "proved" {
			ok++
		}
	}
	st := "OK  "
	if ok != n || t.err != "" || t.vacuous {
		st = "FAIL"
	}
	inv := 0
	if t.x != nil {
		inv = t.x.invProved
	}
	fmt.Printf("%s %s: %d/%d obligations, %d invariant obligations, %.1fs %s", st, t.contract.name, ok, n, inv, t.secs, t.err)
	if t.vacuous {
		fmt.Printf(" VACUOUS")
	}
	fmt.Println()
	for _, o := range t.obls {
		if o.status != "proved" || verbose {
			fmt.Printf("   %s [%s] %s: %s (%s %.1fs) %s\n", o.status, o.kind, o.pos, o.name, o.engine, o.secs, o.verdict)
			if show && o.status != "proved" {
				g := o.goal
				if o.failGoal != nil {
					g = o.failGoal
				}
				fmt.Printf("      goal %.2000s\n", g)
			}
		}
	}
	return st == "OK  "
}
