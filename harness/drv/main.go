package main

import (
	"context"
	"flag"
	"fmt"
	"os"

	"github.com/redis/go-redis/v9"
	"go.uber.org/zap"
)

type quiet struct{}

func (quiet) Printf(context.Context, string, ...interface{}) {}

func main() {
	redis.SetLogger(quiet{})
	zap.ReplaceGlobals(zap.NewNop())
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: drv MODE flags")
		os.Exit(2)
	}
	mode := os.Args[1]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	combo := fs.String("combo", "memory/memory", "cache/storage engines")
	in := fs.String("in", "", "input file")
	out := fs.String("out", "", "output file")
	bin := fs.String("bin", "", "server binary")
	base := fs.Int("base", 0, "first port offset")
	_ = fs.Parse(os.Args[2:])
	var err error
	switch mode {
	case "pure":
		err = mainPure(*in, *out)
	case "conn":
		err = mainConn(*in, *out)
	case "boot":
		err = mainBoot(*bin, *in, *out, *base)
	case "page":
		err = mainPage(*bin, *in, *out, *base)
	case "audit":
		err = mainAudit(*in, *out)
	case "life":
		err = mainLife(*bin, *in, *out, *base)
	case "bulk":
		err = mainBulk(*combo, *in, *out)
	case "seq":
		err = mainSeq(*combo, *in, *out)
	default:
		err = fmt.Errorf("unknown mode %s", mode)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "drv:", err)
		os.Exit(2)
	}
}
