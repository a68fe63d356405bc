// Command vsym decides one property of /repo.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"

	"vsym/checks"
	"vsym/codec"
)

func main() {
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	prop := flag.String("property", "", "property id")
	t := flag.String("tier", tier, "quick or thorough")
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	targets := flag.String("targets", "", "comma separated subset (debugging)")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	os.Exit(run(*prop, *t, seed, *verif, *repo, *targets))
}

func run(prop, tier string, seed int64, verif, repo, targets string) int {
	f := checks.Registry[prop]
	if f == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	r, err := checks.NewRun(prop, tier, seed, verif, repo)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, t := range checks.CodecTargets {
		if _, ok := codec.Backends[t]; ok {
			r.Targets = append(r.Targets, t)
		}
	}
	if targets != "" {
		r.Targets = strings.Split(targets, ",")
	}
	env, err := codec.NewEnv(repo)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer env.Close()
	r.Env = env
	f(r)
	return r.Finish()
}
