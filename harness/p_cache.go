package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"wiki2book/cache"
	"wiki2book/config"
	"wiki2book/util"

	"pgregory.net/rapid"
)

// resetWorld puts the global state of the code under test into its initial state and points the cache into dir.
func resetWorld(dir string) {
	config.Current = config.NewDefaultConfig()
	config.Current.CacheDir = filepath.Join(dir, "cache")
	config.Current.StyleFile = ""
	util.CurrentFilesystem = &util.OsFilesystem{}
	mkdir(dir, "cache")
	mkdir(dir, "cache", cache.TempDirName)
}

var cacheFolders = []string{cache.ArticleCacheDirName, cache.ImageCacheDirName, cache.TemplateCacheDirName, cache.MathCacheDirName}

type cfile struct {
	size  int64
	mtime time.Time
}

// listCache returns all cached files (path relative to the cache directory), without the temporary folder.
func listCache(dir string) map[string]cfile {
	out := map[string]cfile{}
	root := filepath.Join(dir, "cache")
	must(filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if fi.Name() == cache.TempDirName {
				return filepath.SkipDir
			}
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		out[rel] = cfile{fi.Size(), fi.ModTime()}
		return nil
	}))
	return out
}

func tempLeftovers(dir string) []string {
	e, err := os.ReadDir(filepath.Join(dir, "cache", cache.TempDirName))
	if err != nil {
		return nil
	}
	var out []string
	for _, x := range e {
		out = append(out, x.Name())
	}
	return out
}

var granularity time.Duration

// clockGranularity is the smallest difference of modification times the file system can store.
func clockGranularity(dir string) time.Duration {
	if granularity == 0 {
		f := filepath.Join(dir, "granularity")
		must(os.WriteFile(f, nil, 0o644))
		for granularity = 1; granularity < time.Second; granularity *= 10 {
			want := time.Unix(1700000000, 0).Add(granularity)
			must(os.Chtimes(f, want, want))
			fi, err := os.Stat(f)
			must(err)
			if fi.ModTime().Equal(want) {
				break
			}
		}
	}
	return granularity
}

func payload(tag string, n int) []byte {
	if n <= 0 {
		return []byte{}
	}
	b := bytes.Repeat([]byte(tag+"|"), n/(len(tag)+1)+1)
	return b[:n]
}

// ---- C01 ------------------------------------------------------------------------------------------------------------

type cacheOp struct {
	Op     string // put, get, limit (the size limit becomes Size)
	Folder int
	Name   string
	Size   int
}

type evictCase struct {
	Strategy string
	Step     int // nanoseconds between two operations
	Max      int
	Ops      []cacheOp
}

func genEvict(t *rapid.T) evictCase {
	c := evictCase{}
	c.Strategy = rapid.SampledFrom([]string{"lru", "largest", "lru", "largest", "none"}).Draw(t, "strategy")
	c.Max = rapid.SampledFrom([]int{1, 50, 100, 1000, 5000, 70000}).Draw(t, "max")
	c.Step = pick(t, []int{1, 1000, 1_000_000, 300_000_000, 1_000_000_000, 59_000_000_000})
	n := rapid.IntRange(1, 25).Draw(t, "n")
	for i := 0; i < n; i++ {
		op := cacheOp{Op: rapid.SampledFrom([]string{"put", "put", "put", "get"}).Draw(t, "op")}
		if oneIn(t, 12) {
			c.Ops = append(c.Ops, cacheOp{Op: "limit", Size: rapid.IntRange(1, c.Max*2).Draw(t, "limit")})
			continue
		}
		op.Folder = rapid.IntRange(0, 2).Draw(t, "folder")
		op.Name = rapid.SampledFrom([]string{"a", "b", "c", "d", "e", "f g", "h:i", "j%k", ".l", ".tmp", "m.json"}).Draw(t, "name")
		if op.Op == "put" {
			switch rapid.IntRange(0, 9).Draw(t, "sizeclass") {
			case 0:
				op.Size = 0
			case 1:
				op.Size = c.Max + rapid.IntRange(-1, 20).Draw(t, "big")
			case 2:
				op.Size = rapid.IntRange(0, c.Max).Draw(t, "any")
			default:
				op.Size = rapid.IntRange(0, c.Max/3+1).Draw(t, "small")
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runEvict(env *Env, c evictCase) Result {
	resetWorld(env.Dir)
	config.Current.CacheEvictionStrategy = c.Strategy
	config.Current.CacheMaxSize = int64(c.Max)
	res := Result{Classes: []string{"strategy:" + c.Strategy}}
	base := time.Now().Add(-24 * time.Hour).Truncate(time.Second)
	step := time.Duration(c.Step)
	if g := clockGranularity(env.Root); step < g {
		step = g
	}
	tick := 0
	lastUse := map[string]int{}      // the model: logical time of the last use
	onDisk := map[string]time.Time{} // the modification time the harness gave to each file
	content := map[string][]byte{}   // the model: what was written last
	evictions, replaced := 0, 0
	limit := int64(c.Max)
	for i, op := range c.Ops {
		if op.Op == "limit" { // as when the next run has another configuration
			limit = int64(op.Size)
			config.Current.CacheMaxSize = limit
			continue
		}
		tick++
		where := fmt.Sprintf("op %d (%s %s/%s size %d)", i, op.Op, cacheFolders[op.Folder], op.Name, op.Size)
		before := listCache(env.Dir)
		path := cache.GetFilePathInCache(cacheFolders[op.Folder], op.Name)
		rel, _ := filepath.Rel(config.Current.CacheDir, path)
		if op.Op == "put" {
			data := payload(fmt.Sprintf("%d", i), op.Size)
			if _, err := cache.CacheToFile(cacheFolders[op.Folder], op.Name, bytes.NewReader(data)); err != nil {
				return fail("%s: writing into the cache failed although nothing is wrong: %v", where, err)
			}
			after := listCache(env.Dir)
			got, err := os.ReadFile(path)
			if err != nil || !bytes.Equal(got, data) {
				return fail("%s: the written file is not in the cache with its content (err=%v)", where, err)
			}
			if _, had := before[rel]; had {
				replaced++
			}
			var total int64
			for _, f := range after {
				total += f.size
			}
			if c.Strategy != "none" && total > limit && !(len(after) == 1) {
				return fail("%s: cache holds %d bytes in %d files, the limit is %d", where, total, len(after), limit)
			}
			var gone []string
			for f := range before {
				if _, ok := after[f]; !ok {
					gone = append(gone, f)
				}
			}
			sort.Strings(gone)
			if c.Strategy == "none" && len(gone) > 0 {
				return fail("%s: strategy none, but %v was removed", where, gone)
			}
			evictions += len(gone)
			for f := range after {
				if _, ok := before[f]; !ok && f != rel {
					return fail("%s: file %s appeared", where, f)
				}
			}
			// right victims: nobody kept is a better victim than somebody who went
			for _, g := range gone {
				for f := range after {
					if f == rel {
						continue
					}
					if c.Strategy == "largest" && before[f].size > before[g].size {
						return fail("%s: evicted %s (%d bytes) but kept the larger %s (%d bytes)", where, g, before[g].size, f, before[f].size)
					}
					if c.Strategy == "lru" && lastUse[f] < lastUse[g] {
						return fail("%s: evicted %s (last used at %d) but kept %s (last used at %d)", where, g, lastUse[g], f, lastUse[f])
					}
				}
			}
			// no more victims than needed: with the last victim kept, the limit would have been reached
			if len(gone) > 0 {
				last := int64(-1)
				lastName := ""
				for _, g := range gone {
					v := before[g].size
					if c.Strategy == "lru" {
						if lastName == "" || lastUse[g] > lastUse[lastName] {
							lastName, last = g, v
						}
					} else if last < 0 || v < last {
						lastName, last = g, v
					}
				}
				if total+last < limit {
					return fail("%s: evicted %s (%d bytes) although the cache would hold only %d of %d bytes with it", where, lastName, last, total+last, limit)
				}
			}
			for _, g := range gone {
				delete(lastUse, g)
				delete(onDisk, g)
				delete(content, g)
			}
			lastUse[rel] = tick
			content[rel] = data
			delete(onDisk, rel)
		} else {
			p, ok, err := cache.GetFile(cacheFolders[op.Folder], op.Name)
			if err != nil {
				return fail("%s: %v", where, err)
			}
			_, want := before[rel]
			if ok != want {
				return fail("%s: reported cached=%v, but it is %v", where, ok, want)
			}
			if ok {
				got, err := os.ReadFile(p)
				if err != nil || !bytes.Equal(got, content[rel]) {
					return fail("%s: content differs from what was written (err=%v)", where, err)
				}
				lastUse[rel] = tick
			}
			if after := listCache(env.Dir); len(after) != len(before) {
				return fail("%s: reading changed the set of cached files", where)
			}
		}
		// logical clock: whatever the code stamped in this step gets this step's time
		for f, st := range listCache(env.Dir) {
			old, ok := onDisk[f]
			if !ok || !st.mtime.Equal(old) {
				now := base.Add(time.Duration(tick) * step)
				must(os.Chtimes(filepath.Join(config.Current.CacheDir, f), now, now))
				onDisk[f] = now
			}
		}
		if l := tempLeftovers(env.Dir); len(l) > 0 {
			return fail("%s: temporary files left behind: %v", where, l)
		}
	}
	if evictions > 0 {
		res.Classes = append(res.Classes, "evicting")
	}
	if replaced > 0 {
		res.Classes = append(res.Classes, "replacing")
	}
	res.NonTrivial = evictions > 0 || (c.Strategy == "none" && len(c.Ops) > 2)
	return res
}

// ---- C02 ------------------------------------------------------------------------------------------------------------

type faultPut struct {
	Folder   int
	Name     string
	Size     int
	ReadFail int // -1: reader is fine; otherwise it fails after this many bytes
	ReadErr  int // with which error
	Chunk    int // bytes per Read call of the reader
}

type faultCase struct {
	Strategy string
	Max      int
	Puts     []faultPut
}

func genFault(t *rapid.T) faultCase {
	c := faultCase{Strategy: rapid.SampledFrom([]string{"lru", "largest", "none"}).Draw(t, "strategy")}
	c.Max = rapid.SampledFrom([]int{40, 100, 100000}).Draw(t, "max")
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		p := faultPut{Folder: rapid.IntRange(0, 1).Draw(t, "folder"), Name: rapid.SampledFrom([]string{"a", "b", "c:d"}).Draw(t, "name"), ReadFail: -1}
		p.Size = rapid.IntRange(0, 60).Draw(t, "size")
		if rapid.IntRange(0, 9).Draw(t, "large") == 0 {
			p.Size = rapid.IntRange(30000, 70000).Draw(t, "largesize")
		}
		p.Chunk = rapid.SampledFrom([]int{1 << 20, 1000, 7, 1}).Draw(t, "chunk")
		if p.Size > 1000 && p.Chunk < 1000 {
			p.Chunk = 1000
		}
		if rapid.IntRange(0, 3).Draw(t, "rf") == 0 {
			p.ReadFail = rapid.IntRange(0, p.Size).Draw(t, "readfail")
			p.ReadErr = uni(t, len(readErrors))
		}
		c.Puts = append(c.Puts, p)
	}
	return c
}

type flakyReader struct {
	data   []byte
	pos    int
	failAt int
	chunk  int
	err    int
}

var readErrors = []error{errors.New("fake: connection lost"), io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, os.ErrClosed, io.ErrClosedPipe}

func (r *flakyReader) Read(p []byte) (int, error) {
	end := len(r.data)
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	if r.pos >= end {
		if r.failAt >= 0 {
			return 0, readErrors[r.err%len(readErrors)]
		}
		return 0, io.EOF
	}
	n := min(len(p), r.chunk, end-r.pos)
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	return n, nil
}

type crashSignal struct{}

// faultFs counts operations and makes the chosen one fail; after a simulated crash nothing has an effect any more.
type faultFs struct {
	util.OsFilesystem
	n     int
	at    int
	kind  string // error, partial, crash, crash-after
	dead  bool
	where string
	hits  []string
}

var errInjected = errors.New("injected fault")

// step returns an error if the operation must not happen; done is called when it happened.
func (f *faultFs) step(op string) (skip error, partial bool, done func()) {
	if f.dead {
		return errors.New("dead"), false, func() {}
	}
	i := f.n
	f.n++
	f.hits = append(f.hits, op)
	if i == f.at {
		f.where = op
		switch f.kind {
		case "error":
			return errInjected, false, func() {}
		case "partial":
			return nil, true, func() {}
		case "crash":
			f.dead = true
			panic(crashSignal{})
		case "crash-after":
			return nil, false, func() { f.dead = true; panic(crashSignal{}) }
		}
	}
	return nil, false, func() {}
}

func (f *faultFs) GetSizeInBytes(path string) (int64, error) {
	if e, _, d := f.step("getsize"); e != nil {
		return 0, e
	} else {
		n, err := f.OsFilesystem.GetSizeInBytes(path)
		d()
		return n, err
	}
}
func (f *faultFs) Rename(a, b string) error {
	e, _, d := f.step("rename")
	if e != nil {
		return e
	}
	err := f.OsFilesystem.Rename(a, b)
	d()
	return err
}
func (f *faultFs) Remove(n string) error {
	e, _, d := f.step("remove")
	if e != nil {
		return e
	}
	err := f.OsFilesystem.Remove(n)
	d()
	return err
}
func (f *faultFs) Create(n string) (util.FileLike, error) {
	e, _, d := f.step("create")
	if e != nil {
		return nil, e
	}
	x, err := f.OsFilesystem.Create(n)
	d()
	if err != nil {
		return nil, err
	}
	return &faultFile{x, f}, nil
}
func (f *faultFs) MkdirAll(p string) error {
	e, _, d := f.step("mkdir")
	if e != nil {
		return e
	}
	err := f.OsFilesystem.MkdirAll(p)
	d()
	return err
}
func (f *faultFs) CreateTemp(dir, pattern string) (util.FileLike, error) {
	e, _, d := f.step("createtemp")
	if e != nil {
		return nil, e
	}
	x, err := f.OsFilesystem.CreateTemp(dir, pattern)
	d()
	if err != nil {
		return nil, err
	}
	return &faultFile{x, f}, nil
}
func (f *faultFs) DirSizeInBytes(p string) (error, int64) {
	e, _, d := f.step("dirsize")
	if e != nil {
		return e, 0
	}
	err, n := f.OsFilesystem.DirSizeInBytes(p)
	d()
	return err, n
}
func (f *faultFs) FindLargestFile(p, x string) (error, int64, string) {
	e, _, d := f.step("findlargest")
	if e != nil {
		return e, 0, ""
	}
	err, n, s := f.OsFilesystem.FindLargestFile(p, x)
	d()
	return err, n, s
}
func (f *faultFs) FindLruFile(p, x string) (error, int64, string) {
	e, _, d := f.step("findlru")
	if e != nil {
		return e, 0, ""
	}
	err, n, s := f.OsFilesystem.FindLruFile(p, x)
	d()
	return err, n, s
}
func (f *faultFs) Stat(n string) (os.FileInfo, error) {
	e, _, d := f.step("stat")
	if e != nil {
		return nil, e
	}
	fi, err := f.OsFilesystem.Stat(n)
	d()
	return fi, err
}

type faultFile struct {
	util.FileLike
	fs *faultFs
}

func (f *faultFile) Write(p []byte) (int, error) {
	e, partial, d := f.fs.step("write")
	if e != nil {
		return 0, e
	}
	if partial {
		n, _ := f.FileLike.Write(p[:len(p)/2])
		return n, errInjected
	}
	n, err := f.FileLike.Write(p)
	d()
	return n, err
}
func (f *faultFile) Stat() (os.FileInfo, error) {
	e, _, d := f.fs.step("fstat")
	if e != nil {
		return nil, e
	}
	fi, err := f.FileLike.Stat()
	d()
	return fi, err
}
func (f *faultFile) Close() error {
	e, _, d := f.fs.step("close")
	err := f.FileLike.Close() // the descriptor is released in any case
	if e != nil {
		return e
	}
	d()
	return err
}

// tryPut runs one write; crashed says the simulated process death happened inside.
func tryPut(p faultPut, data []byte) (err error, crashed bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(crashSignal); ok {
				crashed = true
				return
			}
			panic(r)
		}
	}()
	_, err = cache.CacheToFile(cacheFolders[p.Folder], p.Name, &flakyReader{data: data, failAt: p.ReadFail, chunk: p.Chunk, err: p.ReadErr})
	return
}

func runFault(env *Env, c faultCase) Result {
	res := Result{Classes: []string{"strategy:" + c.Strategy}}
	// dry run: how many file system operations are there?
	total, r := runFaultOnce(env, c, -1, "")
	if r.Fail != "" {
		return r
	}
	for _, kind := range []string{"error", "partial", "crash", "crash-after"} {
		for k := 0; k < total; k++ {
			_, r := runFaultOnce(env, c, k, kind)
			if r.Fail != "" {
				r.Fail = fmt.Sprintf("fault %s at file system operation %d: %s", kind, k, r.Fail)
				return r
			}
		}
	}
	res.NonTrivial = total > 0 && len(c.Puts) > 1
	for _, p := range c.Puts {
		if p.ReadFail >= 0 {
			res.Classes = append(res.Classes, "reader-fault")
			break
		}
	}
	res.Classes = append(res.Classes, fmt.Sprintf("fs-ops:%d0s", total/10))
	return res
}

var allNames = []string{"a", "b", "c:d"}

func runFaultOnce(env *Env, c faultCase, at int, kind string) (int, Result) {
	dir := filepath.Join(env.Dir, "w")
	must(os.RemoveAll(dir))
	resetWorld(mkdir(dir))
	config.Current.CacheEvictionStrategy = c.Strategy
	config.Current.CacheMaxSize = int64(c.Max)
	sum := 0
	for _, p := range c.Puts {
		sum += p.Size
	}
	roomy := c.Strategy == "none" || sum < c.Max // nothing ever needs to be evicted
	fs := &faultFs{at: at, kind: kind}
	util.CurrentFilesystem = fs
	committed := map[string][]byte{} // last content whose write was reported as successful
	maybe := map[string][]byte{}     // content of a later write that crashed (it may or may not be there)
	var note Result
	for i, p := range c.Puts {
		data := payload(fmt.Sprintf("%d", i), p.Size)
		key := fmt.Sprintf("%d/%s", p.Folder, p.Name)
		before := fs.where
		err, crashed := tryPut(p, data)
		faulted := before == "" && fs.where != ""
		what := fmt.Sprintf("write %d of %s (fault in %q, err=%v, crashed=%v)", i, key, fs.where, err, crashed)
		readFault := p.ReadFail >= 0
		switch {
		case crashed:
			maybe[key] = data
			if readFault {
				delete(maybe, key)
			}
			// the process starts again
			fs.dead = false
			fs.at = -1
			must(os.RemoveAll(filepath.Join(dir, "cache", cache.TempDirName)))
			mkdir(dir, "cache", cache.TempDirName)
		case err == nil:
			if readFault {
				return 0, fail("%s: reported success although the data could not be read completely", what)
			}
			committed[key] = data
			delete(maybe, key)
			// a successful write is there, completely
			got, rerr := os.ReadFile(cache.GetFilePathInCache(cacheFolders[p.Folder], p.Name))
			if rerr != nil || !bytes.Equal(got, data) {
				return 0, fail("%s: reported success, but the file holds %d of %d bytes (err=%v)", what, len(got), len(data), rerr)
			}
		default:
			if !faulted && !readFault {
				return 0, fail("%s: failed without any fault", what)
			}
			if l := tempLeftovers(dir); len(l) > 0 && fs.where != "remove" {
				return 0, fail("%s: failed write left temporary files %v", what, l)
			}
		}
		// every hit is a complete version
		for fi := 0; fi < 2; fi++ {
			for _, n := range allNames {
				k := fmt.Sprintf("%d/%s", fi, n)
				path := cache.GetFilePathInCache(cacheFolders[fi], n)
				got, rerr := os.ReadFile(path)
				want, ok := committed[k]
				m, ok2 := maybe[k]
				if rerr != nil {
					if ok && roomy {
						return 0, fail("%s: the content of %s, that was cached before, is lost", what, k)
					}
					continue
				}
				if !(ok && bytes.Equal(got, want)) && !(ok2 && bytes.Equal(got, m)) {
					return 0, fail("%s: cached file %s holds %d bytes that are no complete written version", what, k, len(got))
				}
			}
		}
	}
	// the surviving process can still use the cache
	util.CurrentFilesystem = &util.OsFilesystem{}
	done := make(chan error, 1)
	go func() {
		_, err := cache.CacheToFile(cache.ImageCacheDirName, "zz", strings.NewReader("zz"))
		done <- err
	}()
	select {
	case err := <-done:
		if err != nil {
			return 0, fail("after the fault the cache cannot be written any more: %v", err)
		}
	case <-time.After(60 * time.Second):
		return 0, fail("after the fault the cache is blocked for good")
	}
	return fs.n, note
}

// ---- C03: concurrent use of the cache -------------------------------------------------------------------------------

type concOp struct {
	Name string
	Size int
	Get  bool
}

type concCase struct {
	Strategy string
	Max      int
	Old      []string // names that are in the cache from the beginning, too old to be used
	Delay    []int    // how long each file system operation takes, in units of 100 µs, repeating
	Threads  [][]concOp
}

var concNames = []string{"a", "b", "c", ".d"}

func genConc(t *rapid.T) concCase {
	c := concCase{Strategy: rapid.SampledFrom([]string{"lru", "largest", "none"}).Draw(t, "strategy")}
	c.Max = rapid.SampledFrom([]int{60, 300, 100000}).Draw(t, "max")
	if rapid.Bool().Draw(t, "delayed") {
		c.Delay = rapid.SliceOfN(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 5}), 1, 7).Draw(t, "delay")
	}
	if oneIn(t, 2) {
		c.Old = rapid.SliceOfNDistinct(rapid.SampledFrom(concNames), 1, 3, func(s string) string { return s }).Draw(t, "old")
	}
	nt := rapid.IntRange(2, 6).Draw(t, "threads")
	for i := 0; i < nt; i++ {
		var ops []concOp
		for j, n := 0, rapid.IntRange(1, 8).Draw(t, "ops"); j < n; j++ {
			ops = append(ops, concOp{
				Name: rapid.SampledFrom(concNames).Draw(t, "name"),
				Size: rapid.IntRange(1, 100).Draw(t, "size"),
				Get:  rapid.Bool().Draw(t, "get"),
			})
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

// slowFs delays file system operations, so that other threads get their turn in between.
type slowFs struct {
	util.OsFilesystem
	n     atomic.Int64
	delay []int
}

func (s *slowFs) wait() {
	n := s.n.Add(1)
	if d := s.delay[int(n)%len(s.delay)]; d > 0 {
		time.Sleep(time.Duration(d) * 100 * time.Microsecond)
	} else {
		runtime.Gosched()
	}
}

func (s *slowFs) GetSizeInBytes(p string) (int64, error) {
	s.wait()
	return s.OsFilesystem.GetSizeInBytes(p)
}

func (s *slowFs) Rename(a, b string) error {
	s.wait()
	return s.OsFilesystem.Rename(a, b)
}

func (s *slowFs) Remove(p string) error {
	s.wait()
	return s.OsFilesystem.Remove(p)
}

func (s *slowFs) MkdirAll(p string) error {
	s.wait()
	return s.OsFilesystem.MkdirAll(p)
}

func (s *slowFs) CreateTemp(a, b string) (util.FileLike, error) {
	s.wait()
	return s.OsFilesystem.CreateTemp(a, b)
}

func (s *slowFs) DirSizeInBytes(p string) (error, int64) {
	s.wait()
	err, n := s.OsFilesystem.DirSizeInBytes(p)
	s.wait()
	return err, n
}

func (s *slowFs) FindLargestFile(a, b string) (error, int64, string) {
	err, n, p := s.OsFilesystem.FindLargestFile(a, b)
	s.wait()
	return err, n, p
}

func (s *slowFs) FindLruFile(a, b string) (error, int64, string) {
	err, n, p := s.OsFilesystem.FindLruFile(a, b)
	s.wait()
	return err, n, p
}

func (s *slowFs) Stat(p string) (os.FileInfo, error) {
	fi, err := s.OsFilesystem.Stat(p)
	s.wait()
	return fi, err
}

func (s *slowFs) Chtimes(p string, a, m time.Time) error {
	s.wait()
	return s.OsFilesystem.Chtimes(p, a, m)
}

func runConc(env *Env, c concCase) Result {
	resetWorld(env.Dir)
	if len(c.Delay) > 0 {
		util.CurrentFilesystem = &slowFs{delay: c.Delay}
	}
	config.Current.CacheEvictionStrategy = c.Strategy
	config.Current.CacheMaxSize = int64(c.Max)
	if len(c.Old) > 0 {
		mkdir(env.Dir, "cache", cache.ImageCacheDirName)
		then := time.Now().Add(-time.Duration(config.Current.CacheMaxAge+10) * time.Minute)
		for _, n := range c.Old {
			f := cache.GetFilePathInCache(cache.ImageCacheDirName, n)
			must(os.WriteFile(f, []byte("outdated"), 0o644))
			must(os.Chtimes(f, then, then))
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	versions := map[string]map[string]bool{}
	problem := ""
	puts := 0
	report := func(f string, a ...any) {
		mu.Lock()
		defer mu.Unlock()
		if problem == "" {
			problem = fmt.Sprintf(f, a...)
		}
	}
	for ti, ops := range c.Threads {
		for oi, op := range ops {
			if !op.Get {
				if versions[op.Name] == nil {
					versions[op.Name] = map[string]bool{}
				}
				versions[op.Name][string(payload(fmt.Sprintf("%d.%d", ti, oi), op.Size))] = true
				puts++
			}
		}
	}
	start := make(chan struct{})
	for ti, ops := range c.Threads {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					report("panic: %v", r)
				}
			}()
			<-start
			for oi, op := range ops {
				if op.Get {
					p, ok, err := cache.GetFile(cache.ImageCacheDirName, op.Name)
					if err != nil {
						report("thread %d op %d: GetFile: %v", ti, oi, err)
						return
					}
					if !ok {
						continue
					}
					b, err := os.ReadFile(p)
					if err != nil {
						continue // evicted in between
					}
					if !versions[op.Name][string(b)] {
						report("thread %d op %d: read %d bytes of %s that nobody wrote", ti, oi, len(b), op.Name)
						return
					}
				} else {
					data := payload(fmt.Sprintf("%d.%d", ti, oi), op.Size)
					_, err := cache.CacheToFile(cache.ImageCacheDirName, op.Name, &flakyReader{data: data, failAt: -1, chunk: 13})
					if err != nil {
						report("thread %d op %d: CacheToFile: %v", ti, oi, err)
						return
					}
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	if problem != "" {
		return fail("%s", problem)
	}
	files := listCache(env.Dir)
	seen := map[string]bool{}
	left := 0
	var total int64
	for f, st := range files {
		total += st.size
		b, err := os.ReadFile(filepath.Join(config.Current.CacheDir, f))
		must(err)
		seen[filepath.Base(f)] = true
		if string(b) == "outdated" && slices.Contains(c.Old, filepath.Base(f)) {
			left++
			continue
		}
		if !versions[filepath.Base(f)][string(b)] {
			return fail("at the end %s holds %d bytes that nobody wrote", f, len(b))
		}
	}
	if c.Strategy != "none" && total > int64(c.Max) && len(files) > 1 {
		return fail("at the end the cache holds %d bytes, the limit is %d", total, c.Max)
	}
	if c.Strategy == "none" {
		for n := range versions {
			if !seen[n] {
				return fail("strategy none: %s was written, but is not cached at the end", n)
			}
		}
		if len(files) != len(versions)+left {
			return fail("strategy none: %d names written, %d files cached, %d of them old", len(versions), len(files), left)
		}
	}
	if l := tempLeftovers(env.Dir); len(l) > 0 {
		return fail("temporary files left: %v", l)
	}
	return Result{NonTrivial: puts > 1, Classes: []string{"strategy:" + c.Strategy, fmt.Sprintf("threads:%d", len(c.Threads))}}
}

// ---- C04: names ------------------------------------------------------------------------------------------------------

type nameCase struct {
	Folder int
	Names  []string
}

func genName(t *rapid.T) string {
	alphabet := []rune("aAbB01 _-.,;%25<>:\"/\\|?*'()&=+#~äß漢é!{}[]$@")
	n := rapid.IntRange(1, 12).Draw(t, "len")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 7).Draw(t, "k") {
		case 0:
			sb.WriteString(rapid.SampledFrom([]string{"%2F", "../", "..", "%25", "%3A", "/", "\\", "%", ".json", "File:"}).Draw(t, "frag"))
		default:
			sb.WriteRune(rapid.SampledFrom(alphabet).Draw(t, "r"))
		}
	}
	return sb.String()
}

func genNames(t *rapid.T) nameCase {
	c := nameCase{Folder: rapid.IntRange(0, 3).Draw(t, "folder")}
	if oneIn(t, 8) { // long names that differ somewhere only
		n := rapid.IntRange(2, 5).Draw(t, "n")
		length := pick(t, []int{30, 63, 64, 65, 100, 127, 128, 129, 150, 199, 200, 201, 220, 239, 240, 241, 242, 245, 250, 255, 256, 260, 300, 500, 1000})
		unit := pick(t, []string{"x", "x", "é", "漢", ":"})
		if oneIn(t, 3) { // only upper and lower case differ
			base := strings.Repeat("x", length)
			at := uni(t, len(base))
			c.Names = append(c.Names, base, base[:at]+"X"+base[at+1:], base[:len(base)-1]+"X")
			return c
		}
		for i := 0; i < n; i++ {
			r := []rune(strings.Repeat(unit, max(12, length/len(unit)-uni(t, 2))))
			r[uni(t, len(r))] = rune("yz Z:."[uni(t, 6)])
			r[len(r)-1-uni(t, 5)] = rune("abcdeA"[uni(t, 6)])
			c.Names = append(c.Names, string(r)+pick(t, []string{"", "", ".svg", ".json"}))
		}
		return c
	}
	n := rapid.IntRange(2, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 2).Draw(t, "mutate") == 0 {
			// an encoding collision candidate: replace one special character by what it could be encoded to
			base := rapid.SampledFrom(c.Names).Draw(t, "base")
			r := rapid.SampledFrom([][2]string{{"/", "%2F"}, {":", "%3A"}, {"%", "%25"}, {"%25", "%"}, {"?", "%3F"}, {"*", "%2A"}, {"%2F", "/"}, {"\\", "%5C"}, {"|", "%7C"}, {"<", "%3C"}, {">", "%3E"}, {"\"", "%22"}, {"/", "_"}, {":", ""}, {" ", "_"}, {"a", "A"}}).Draw(t, "repl")
			c.Names = append(c.Names, strings.ReplaceAll(base, r[0], r[1]))
			continue
		}
		c.Names = append(c.Names, genName(t))
	}
	return c
}

func runNames(env *Env, c nameCase) Result {
	resetWorld(env.Dir)
	folder := cacheFolders[c.Folder]
	res := Result{}
	outsideBefore := treeOutside(env.Dir)
	uniq := map[string]int{}
	special := false
	for i, n := range c.Names {
		if n == "" || n == "." || n == ".." {
			continue // reserved words are excluded by the documentation
		}
		if strings.ContainsAny(n, "/\\%:*?|<>\"") {
			special = true
		}
		uniq[n] = i
		p, err := cache.CacheToFile(folder, n, strings.NewReader(fmt.Sprintf("content %d", i)))
		if err != nil {
			return fail("cannot cache under the name %q: %v", n, err)
		}
		if filepath.Dir(p) != filepath.Join(config.Current.CacheDir, folder) {
			return fail("name %q is stored at %q, outside of its cache folder", n, p)
		}
	}
	for n, i := range uniq {
		p, ok, err := cache.GetFile(folder, n)
		if err != nil || !ok {
			return fail("name %q was cached, but is not found (err=%v)", n, err)
		}
		b, err := os.ReadFile(p)
		if err != nil || string(b) != fmt.Sprintf("content %d", i) {
			return fail("name %q returns the content of another name: %q", n, b)
		}
		for _, other := range cacheFolders {
			if other == folder {
				continue
			}
			if _, ok, _ := cache.GetFile(other, n); ok {
				return fail("name %q was cached in %s and is found in %s", n, folder, other)
			}
		}
	}
	if got := len(listCache(env.Dir)); got != len(uniq) {
		return fail("%d names, but %d files", len(uniq), got)
	}
	if o := treeOutside(env.Dir); o != outsideBefore {
		return fail("files outside of the cache directory changed: %s -> %s", outsideBefore, o)
	}
	res.NonTrivial = len(uniq) > 1 && special
	if special {
		res.Classes = append(res.Classes, "special-characters")
	}
	return res
}

// treeOutside lists everything in the case directory that is not below the cache directory.
func treeOutside(dir string) string {
	var l []string
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if p == filepath.Join(dir, "cache") {
			return filepath.SkipDir
		}
		l = append(l, p)
		return nil
	})
	return strings.Join(l, ",")
}

func init() {
	register(&Prop{
		ID: "C01", Quick: 16000, Thorough: 300000,
		Rule:        "history of cache writes and reads with generated sizes, names, folders, size limit and strategy against a model with a logical clock; non-trivial = at least one file was evicted (or strategy none with more than two operations)",
		Assumptions: []string{"file times are replaced by a logical clock between operations, so the granularity of file time stamps plays no role", "single process using the cache directory"},
	}, genEvict, runEvict)
	register(&Prop{
		ID: "C02", Quick: 800, Thorough: 30000, Level: "fault_enumeration",
		Rule:        "generated short write histories (readers that break, small cache limits); for every file system operation of the history each of four fault kinds (error, partial write, crash before, crash after) is injected; non-trivial = history of at least two writes",
		Assumptions: []string{"faults are injected at the Filesystem interface of the code; a crash freezes the directory state at that operation (no reordering of unsynced writes)"},
	}, genFault, runFault)
	register(&Prop{
		ID: "C03", Quick: 6000, Thorough: 120000,
		Rule:        "2-6 threads reading and writing the same names at once, small limits; every content read must be a complete version somebody wrote, at the end the limit holds; non-trivial = at least two writes",
		Confirm:     40,
		Assumptions: []string{"interleavings are those the Go scheduler produces with generated delays around file system operations; they are not owned by the harness"},
	}, genConc, runConc)
	register(&Prop{
		ID: "C04", Quick: 16000, Thorough: 300000,
		Rule:        "sets of 2-8 adversarial names (path separators, percent escapes, reserved characters, collisions built by substituting escapes) cached and read back; non-trivial = at least two names and a special character",
		Assumptions: []string{"names without control characters, not '.' or '..' (as documented)"},
	}, genNames, runNames)
}
