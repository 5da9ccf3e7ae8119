// Package replay runs harnesses natively: a counterexample (exit 1: it violates the
// property), or a batch of completed symbolic paths that must all pass.
package replay

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"time"

	"verif/harness/nd"
)

type file struct {
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	Kind     string `json:"kind"`
	Thorough bool   `json:"thorough"`
	Values   []nd.V `json:"values"`
}

type trace struct {
	Harness string   `json:"harness"`
	Values  []nd.V   `json:"values"`
	Reach   []string `json:"reach"`
}

func run(f func()) (res string, code int) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case nd.Violation:
			res, code = "violated: "+x.Label, 1
		case nd.Diverged:
			res, code = "diverged: "+x.Msg, 3
		case nd.AssumptionFailed:
			res, code = "assumption failed", 4
		case error:
			res, code = "panic: "+x.Error(), 1
		default:
			res, code = fmt.Sprintf("panic: %v", x), 1
		}
	}()
	f()
	return "passed", 0
}

// Main is the entry point of the generated program.
func Main(hs map[string]func()) {
	if os.Args[1] == "-validate" {
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			panic(err)
		}
		var t struct {
			Thorough bool    `json:"thorough"`
			Traces   []trace `json:"traces"`
		}
		if err = json.Unmarshal(b, &t); err != nil {
			panic(err)
		}
		for _, x := range t.Traces {
			nd.Load(x.Values, t.Thorough)
			res, code := run(hs[x.Harness])
			switch {
			case code != 0:
				fmt.Printf("bad %s: %s with %v\n", x.Harness, strings.ReplaceAll(res, "\n", " "), x.Values)
			case nd.Consumed() != len(x.Values):
				fmt.Printf("bad %s: consumed %d of %d values %v\n", x.Harness, nd.Consumed(), len(x.Values), x.Values)
			case strings.Join(nd.Reached, "|") != strings.Join(x.Reach, "|"):
				fmt.Printf("bad %s: reached %v, expected %v with %v\n", x.Harness, nd.Reached, x.Reach, x.Values)
			default:
				fmt.Println("ok")
			}
		}
		return
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var f file
	if err = json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	nd.Load(f.Values, f.Thorough)
	h := hs[f.Harness]
	if h == nil {
		fmt.Println("no such harness", f.Harness)
		os.Exit(5)
	}
	res, code := run(h)
	if f.Kind == "write" {
		// whether a race shows depends on the schedule
		for end := time.Now().Add(8 * time.Second); nd.Attempt < 60 && code == 0 && time.Now().Before(end); {
			nd.Attempt++
			nd.Load(f.Values, f.Thorough)
			res, code = run(h)
		}
	}
	fmt.Printf("%s: %s\n", f.Harness, res)
	os.Exit(code)
}
