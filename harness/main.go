package main

import (
	"flag"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv CMD [flags]")
		os.Exit(3)
	}
	var a Args
	fs := flag.NewFlagSet("drv", flag.ExitOnError)
	out := fs.String("out", "", "trace file")
	fs.Int64Var(&a.Seed, "seed", 1, "seed")
	fs.IntVar(&a.N, "n", 1, "number of scenarios")
	fs.IntVar(&a.Shard, "shard", 0, "shard")
	fs.IntVar(&a.Shards, "shards", 1, "shards")
	fs.StringVar(&a.Tier, "tier", "quick", "tier")
	fs.StringVar(&a.Sched, "sched", "", "schedule file")
	fs.StringVar(&a.Dir, "dir", "", "scratch directory")
	fs.StringVar(&a.Opt, "opt", "", "driver specific option")
	fs.Parse(os.Args[2:])
	f, ok := cmds[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(3)
	}
	tr := NewTrace(*out)
	// keep what the library prints out of the way
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	f(tr, newRng(a.Seed*7919+int64(a.Shard), os.Args[1]), &a)
	tr.Close()
}
