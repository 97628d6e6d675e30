package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"pgregory.net/rapid"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"
)

type cliResult struct {
	Code     int
	Out      string
	Signaled bool
	TimedOut bool
}

const cliTimeout = 100 * time.Second

// haveRaceTool: the check builds the tool with the race detector where the detector works.
var haveRaceTool = sync.OnceValue(func() bool {
	_, err := os.Stat(filepath.Join(os.Getenv("VH_BIN"), "wiki2book-race"))
	return err == nil
})

// takeRaces gives the first report of the race detector and removes all. The counter of log messages within the log
// library is not protected, which has no influence on any article.
func takeRaces(env *Env) string {
	files, _ := filepath.Glob(filepath.Join(env.Dir, "race.*"))
	found := ""
	for _, f := range files {
		b, _ := os.ReadFile(f)
		_ = os.Remove(f)
		for _, report := range strings.Split(string(b), "WARNING: DATA RACE\n")[1:] {
			accesses := regexp.MustCompile(`(?m)^(?:Previous )?(?:[Aa]tomic )?(?:[Rr]ead|[Ww]rite) at .*\n\s*(\S+)`).FindAllStringSubmatch(report, -1)
			inLog := len(accesses) > 0
			for _, a := range accesses {
				inLog = inLog && strings.Contains(a[1], "/sigolo/")
			}
			if !inLog && found == "" {
				found = report
			}
		}
	}
	return found
}

// logLevel is a value for Env.Log: nothing must depend on it.
func logLevel(t *rapid.T) string {
	return pick(t, []string{"", "", "", "info", "debug", "DEBUG", "trace"})
}

// runCli runs the real wiki2book with the fake web as the only reachable one.
func runCli(env *Env, cwd string, extraEnv []string, kill <-chan struct{}, args ...string) cliResult {
	w := getWeb(env.Root)
	bin := os.Getenv("VH_BIN")
	ctx, cancel := context.WithTimeout(context.Background(), cliTimeout)
	defer cancel()
	tool := filepath.Join(bin, "wiki2book")
	if env.Race && env.FileLimit == 0 && haveRaceTool() { // with a limit, reports of races would be cut as well
		tool += "-race"
		extraEnv = append([]string{"GORACE=exitcode=0 atexit_sleep_ms=0 log_path=" + filepath.Join(env.Dir, "race")}, extraEnv...)
	}
	if env.Log != "" {
		args = append([]string{"--logging=" + env.Log}, args...)
	}
	if env.FileLimit > 0 { // as if the disk were full; the stubs are not affected
		args = append([]string{fmt.Sprintf("--fsize=%d:", env.FileLimit), tool}, args...)
		tool = "/usr/bin/prlimit"
	}
	cmd := exec.CommandContext(ctx, tool, args...)
	cmd.Dir = cwd
	cmd.Env = append([]string{
		"PATH=" + bin + ":/usr/bin:/bin",
		"HOME=" + filepath.Join(env.Dir, "home"),
		"XDG_CACHE_HOME=" + filepath.Join(env.Dir, "home", "cache"),
		fmt.Sprintf("HTTPS_PROXY=http://%s", w.ln.Addr()),
		fmt.Sprintf("HTTP_PROXY=http://%s", w.ln.Addr()),
		"SSL_CERT_FILE=" + w.CAFile,
		"GOMAXPROCS=4",
		"GOTRACEBACK=single",
		"VH_STUB_LOG=" + filepath.Join(env.Dir, "stub.log"),
	}, extraEnv...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cmd.WaitDelay = 5 * time.Second
	must(os.MkdirAll(filepath.Join(env.Dir, "home"), 0o755))
	must(cmd.Start())
	stop := make(chan struct{})
	if kill != nil {
		go func() {
			select {
			case <-kill:
				_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			case <-stop:
			}
		}()
	}
	err := cmd.Wait()
	close(stop)
	r := cliResult{Out: out.String(), TimedOut: ctx.Err() != nil}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.Code = ee.ExitCode()
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			r.Signaled = true
		}
	} else if err != nil {
		r.Code = -1
	}
	return r
}
