// Command core drives the real ndaumath packages.
//
//	core rec <property> <seed> <tier> > records.ndjson   record executions of the real code
//	core replay <model> <trace.itf.json>...              replay specification behaviours on the real code
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"verif.local/driver/covreg"
)

type recorder func(r *R)

var recorders = map[string]recorder{}
var replayers = map[string]func(files []string) error{}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: core rec|replay ...")
	}
	switch os.Args[1] {
	case "rec", "explore":
		f, ok := recorders[os.Args[2]]
		if !ok {
			fatal("no recorder " + os.Args[2])
		}
		seed, err := strconv.ParseInt(os.Args[3], 10, 64)
		if err != nil {
			fatal(err.Error())
		}
		r := newR(seed, os.Args[4], os.Stdout)
		if os.Args[1] == "explore" {
			r.explore(os.Getenv("VERIF_TARGETS"))
		}
		f(r)
		r.close()
		if p := os.Getenv("VERIF_COVOUT"); p != "" {
			b, _ := json.Marshal(covreg.Files)
			os.WriteFile(p, b, 0o644)
		}
	case "replay":
		f, ok := replayers[os.Args[2]]
		if !ok {
			fatal("no replayer " + os.Args[2])
		}
		if err := f(os.Args[3:]); err != nil {
			fatal(err.Error())
		}
	default:
		fatal("unknown command")
	}
}

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "driver: "+s)
	os.Exit(3)
}
