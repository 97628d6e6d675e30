package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"syscall"
)

// stubMain is what this binary does when it is called under the name of an external tool.
func stubMain(name string, args []string) int {
	var limit syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_FSIZE, &limit) == nil {
		limit.Cur = limit.Max
		_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &limit)
	}
	rec := map[string]any{"name": name, "args": args}
	wd, _ := os.Getwd()
	rec["cwd"] = wd
	b, _ := json.Marshal(rec)
	if lf := os.Getenv("VH_STUB_LOG"); lf != "" {
		f, err := os.OpenFile(lf, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 1
		}
		_, _ = f.Write(append(b, '\n'))
		f.Close()
	}
	switch name {
	case "stub-pandoc":
		return stubPandoc(args)
	case "stub-convert":
		return stubConvert(args)
	case "stub-fail":
		return 1
	}
	return 1
}

// stubKill ends wiki2book together with its tools in the middle of the n-th command.
func stubKill(out string, content []byte) {
	kf := os.Getenv("VH_STUB_KILL")
	if kf == "" {
		return
	}
	b, _ := os.ReadFile(kf)
	n, _ := strconv.Atoi(string(b))
	if n > 0 {
		_ = os.WriteFile(kf, []byte(strconv.Itoa(n-1)), 0o644)
	}
	if n == 1 {
		_ = os.WriteFile(out, content[:len(content)/2], 0o644)
		_ = syscall.Kill(0, syscall.SIGKILL)
		select {}
	}
}

// stubConvert: IN OUT [params]: the output says what was converted how often.
func stubConvert(args []string) int {
	if len(args) < 3 {
		fmt.Fprintln(os.Stderr, "stub-convert: need MODE IN OUT")
		return 1
	}
	if ff := os.Getenv("VH_STUB_FAIL"); ff != "" { // the n-th call fails and leaves something unusable
		b, _ := os.ReadFile(ff)
		n, _ := strconv.Atoi(string(b))
		if n > 0 {
			_ = os.WriteFile(ff, []byte(strconv.Itoa(n-1)), 0o644)
		}
		if n == 1 {
			_ = os.WriteFile(args[2], []byte("damaged"), 0o644)
			return 1
		}
	}
	in, err := os.ReadFile(args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	content := []byte(fmt.Sprintf("%s(%s)", args[0], in))
	stubKill(args[2], content)
	if err := os.WriteFile(args[2], content, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	return 0
}

// stubPandoc writes the given -o file with the concatenation of all inputs.
func stubPandoc(args []string) int {
	out := ""
	var inputs []string
	for i := 0; i < len(args); i++ {
		switch args[i] {
		case "-o", "--output":
			if i+1 < len(args) {
				out = args[i+1]
			}
			i++
		case "-f", "-t", "--from", "--to", "--resource-path", "--css", "--epub-cover-image", "--epub-embed-font", "--data-dir", "--metadata", "-M", "--toc-depth", "--variable":
			i++
		default:
			if len(args[i]) > 0 && args[i][0] == '-' {
				continue
			}
			inputs = append(inputs, args[i])
		}
	}
	failing := os.Getenv("VH_STUB_PANDOC_FAIL")
	if failing == "partial" {
		_ = os.WriteFile(out, []byte("half of a book"), 0o644)
	}
	if failing != "" {
		fmt.Fprintln(os.Stderr, "stub-pandoc: failing as told")
		return 47
	}
	var all []byte
	for _, in := range inputs {
		b, err := os.ReadFile(in)
		if err != nil {
			fmt.Fprintln(os.Stderr, "stub-pandoc:", err)
			return 1
		}
		all = append(all, b...)
	}
	if out == "" {
		return 0
	}
	stubKill(out, all)
	if err := os.WriteFile(out, all, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	return 0
}
