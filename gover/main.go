package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"sync"
	"time"
)

var (
	flagRepo  = flag.String("repo", "/repo", "repository")
	flagVerif = flag.String("verif", "/verif", "verification directory")
	flagNo    = flag.String("noproof", "", "do without the proof, for the given reason")
	flagDebug = flag.Bool("debug", false, "print failures")
	flagLoop  = flag.Bool("dbgloop", false, "print loop plans")
	flagUnr   = flag.Bool("unreached", false, "print blocks that no path reaches")
	flagJ     = flag.Int("j", 8, "parallel functions")
)

func setup() *Program {
	P, err := load(*flagRepo, *flagVerif+"/lemmas")
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	sp, err := loadSpec(*flagVerif + "/contracts")
	if err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	P.spec = sp
	P.dbgLoop = *flagLoop
	return P
}

func runAll(P *Program, names []string, j int) map[string]*FuncResult {
	out := map[string]*FuncResult{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	ch := make(chan string)
	for i := 0; i < j; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range ch {
				r := verify(P, P.spec.contracts[n])
				mu.Lock()
				out[n] = r
				mu.Unlock()
			}
		}()
	}
	for _, n := range names {
		ch <- n
	}
	close(ch)
	wg.Wait()
	return out
}

func main() {
	flag.Parse()
	switch flag.Arg(0) {
	case "verify":
		t0 := time.Now()
		P := setup()
		for k, v := range P.dropped {
			fmt.Println("lemma file dropped:", k, v)
		}
		re := regexp.MustCompile(flag.Arg(1))
		var names []string
		for _, n := range P.spec.order {
			if re.MatchString(n) {
				names = append(names, n)
			}
		}
		fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
		rs := runAll(P, names, *flagJ)
		bad := 0
		for _, n := range names {
			r := rs[n]
			f := 0
			for _, o := range r.Obls {
				if !o.OK {
					f++
				}
			}
			fmt.Printf("%-10s %5.1fs paths=%d obls=%d failed=%d  %s %s\n", r.Status, r.Seconds, r.Paths, len(r.Obls), f, n, r.Msg)
			if r.Status != "proved" && r.Status != "trusted" {
				bad++
			}
			if *flagUnr {
				for _, u := range r.Unreached {
					fmt.Println("      unreached:", u)
				}
			}
			if r.Status == "failed" {
				seen := map[string]bool{}
				for _, o := range r.Obls {
					if !o.OK && !seen[o.Name+o.Text] {
						seen[o.Name+o.Text] = true
						fmt.Printf("      FAILED %v %s: %s (%s)\n", o.Labels, o.Name, o.Text, o.Pos)
						if *flagDebug && o.Backend == "polynomials" {
							fmt.Println("        ", o.Detail)
						}
					}
				}
			}
		}
		fmt.Printf("%d functions, %d not proved, %.1fs\n", len(names), bad, time.Since(t0).Seconds())
	case "check":
		os.Exit(check(flag.Arg(1), flag.Arg(2)))
	case "funcs":
		P := setup()
		var l []string
		for n := range P.funcs {
			l = append(l, n)
		}
		sort.Strings(l)
		for _, n := range l {
			m := " "
			if c := P.spec.contracts[n]; c != nil {
				m = "C"
			}
			fmt.Println(m, n)
		}
	default:
		fmt.Println("usage: gover verify REGEX | check PROPERTY TIER | funcs")
	}
}
