// Command vh is the verification harness of wiki2book: property-based checks over generated inputs, histories,
// schedules and faults. See /verif/DESIGN.md.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func main() {
	base := filepath.Base(os.Args[0])
	if strings.HasPrefix(base, "stub-") {
		os.Exit(stubMain(base, os.Args[1:]))
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh check ID VERIFDIR TIER | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(guard(func() int { return checkMain(os.Args[2], os.Args[3], os.Args[4]) }))
	case "shard":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		cases, _ := strconv.Atoi(os.Args[4])
		dl, _ := strconv.ParseInt(os.Args[8], 10, 64)
		os.Exit(guard(func() int {
			shardMain(os.Args[2], seed, cases, os.Args[5], os.Args[6], os.Args[7], time.Unix(0, dl))
			return 0
		}))
	case "exec":
		executorMain(os.Args[2], os.Args[3], os.Args[4])
	case "replay":
		os.Exit(guard(func() int { return replayMain(os.Args[2]) }))
	case "doc":
		os.Exit(docMain())
	case "list":
		for id := range props {
			fmt.Println(id)
		}
	default:
		os.Exit(2)
	}
}

func guard(f func() int) (code int) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, "ERROR:", r)
			code = 2
		}
	}()
	return f()
}
