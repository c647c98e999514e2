package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

// usage: checker [-repo DIR] [-verif DIR] ID...   (no ID: all)
func main() {
	repo, verif := "/repo", ""
	var ids []string
	args := os.Args[1:]
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-repo":
			i++
			repo = args[i]
		case "-verif":
			i++
			verif = args[i]
		default:
			ids = append(ids, args[i])
		}
	}
	if verif == "" {
		verif, _ = os.Getwd()
	}
	verif, _ = filepath.Abs(verif)
	repo, _ = filepath.Abs(repo)
	if len(ids) == 0 {
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	start := time.Now()
	status := 0
	w, err := func() (w *World, err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("analyser panic while loading: %v\n%s", e, debug.Stack())
			}
		}()
		return LoadWorld(repo)
	}()
	if w != nil {
		defer w.L.Close()
	}
	for _, id := range ids {
		c := checks[id]
		if c == nil {
			fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
			status = 1
			continue
		}
		r := newR(w, id)
		loadErr := ""
		if err != nil {
			loadErr = err.Error()
			r.Violations = append(r.Violations, Violation{"load", "program", "-", "the current tree cannot be analysed: " + loadErr})
		} else {
			func() {
				defer func() {
					if e := recover(); e != nil {
						r.Violations = append(r.Violations, Violation{"analyser", "panic", "-", fmt.Sprintf("analysis did not complete: %v\n%s", e, debug.Stack())})
					}
				}()
				c.Run(r)
			}()
		}
		if len(ids) > 1 {
			fmt.Printf("== %s %s\n", id, c.Title)
		}
		if s := finish(verif, c, r, start, loadErr); s != 0 {
			status = 1
		}
		start = time.Now()
	}
	if w != nil {
		w.L.Close()
	}
	os.Exit(status)
}
