// Command nnmon runs the runtime monitors for one property of CubeFlix/nn.
//
// Parent mode:  nnmon -prop C01 [-tier quick|thorough] [-seed N] [-replay FILE]
// The parent starts child processes (one per shard); every child runs its share
// of the property's cases and judges every observed call. A case is a pure
// function of (seed, property, case number). A child that dies is attributed to
// the case it had journalled.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/cubeflix/nn"
)

// Ctx is what a case sees.
type Ctx struct {
	R        *rand.Rand
	Tier     string
	Case     int
	Dir      string // scratch directory of this shard
	cov      map[string]int64
	desc     strings.Builder
	nontriv  bool
	events   int64
	Thorough bool
}

type violation struct {
	Msg string
}

// Fail reports a violation of the property.
func (c *Ctx) Fail(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Cov counts something the monitors observed.
func (c *Ctx) Cov(k string, n int) { c.cov[k] += int64(n) }

// Desc appends to the case's written description.
func (c *Ctx) Desc(format string, a ...interface{}) {
	if c.desc.Len() < 4000 {
		fmt.Fprintf(&c.desc, format+" ", a...)
	}
}

// NT marks the case as non-trivial.
func (c *Ctx) NT() { c.nontriv = true }

// Prop is a property's monitor and workload.
type Prop struct {
	ID       string
	Quick    int
	Thorough int
	Rule     string
	Run      func(c *Ctx)
	// Floors: what a quick run must at least have observed, else inconclusive.
	Floors map[string]int64
	Shards int // 0: one per core, at most 8
	Race   bool
	// Aggregated oracle over all cases of all shards (optional).
	Final func(cov map[string]int64) string
	Notes []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// VRec is a recorded violation.
type VRec struct {
	Property string `json:"property"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Case     int    `json:"case"`
	Msg      string `json:"message"`
	Desc     string `json:"case_description"`
	Stack    string `json:"stack,omitempty"`
}

type childOut struct {
	Evals      int64            `json:"evals"`
	Nontrivial []uint64         `json:"nontrivial"`
	Cov        map[string]int64 `json:"cov"`
	Samples    []string         `json:"samples"`
	Viol       []VRec           `json:"viol"`
}

func caseSeed(seed int64, prop string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, i)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

func newCtx(p *Prop, seed int64, tier string, i int, dir string, cov map[string]int64) *Ctx {
	return &Ctx{R: rand.New(rand.NewSource(caseSeed(seed, p.ID, i))), Tier: tier, Case: i, Dir: dir,
		cov: cov, Thorough: tier == "thorough"}
}

// runCase runs one case and returns a violation, if any.
func runCase(p *Prop, c *Ctx, seed int64) (v *VRec) {
	defer func() {
		if r := recover(); r != nil {
			v = &VRec{Property: p.ID, Seed: seed, Tier: c.Tier, Case: c.Case, Desc: c.desc.String()}
			if vv, ok := r.(violation); ok {
				v.Msg = vv.Msg
			} else {
				v.Msg = fmt.Sprintf("panic: %v", r)
				v.Stack = string(debug.Stack())
			}
		}
	}()
	p.Run(c)
	return nil
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const cpuLimitPerCase = 90.0 // seconds of CPU time; ordinary cases take milliseconds

const idleLimit = 40 * time.Second

// allBlocked tells whether every goroutine but the caller waits for another one.
func allBlocked() (string, bool) {
	buf := make([]byte, 1<<20)
	st := string(buf[:runtime.Stack(buf, true)])
	gs := strings.Split(st, "\n\n")
	for _, g := range gs[1:] {
		a, b := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if a < 0 || b < a {
			continue
		}
		state := g[a+1 : b]
		waits := false
		for _, w := range []string{"chan ", "select", "sync.", "semacquire", "force gc", "GC ", "finalizer", "cleanup"} {
			waits = waits || strings.HasPrefix(state, w)
		}
		if !waits {
			return st, false
		}
	}
	return st, true
}

func childMain(p *Prop, tier string, seed int64, shard, shards, cases, only int, outFile, journal, dir string) {
	if !raceEnabled {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(256 << 20)
	out := childOut{Cov: map[string]int64{}}
	jf, err := os.Create(journal)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var mu sync.Mutex
	curCase, curStart := -1, 0.0
	stop := func(v VRec) {
		b, _ := json.Marshal(childOut{Viol: []VRec{v}, Cov: map[string]int64{}})
		os.WriteFile(outFile, b, 0644)
		os.Exit(0)
	}
	go func() {
		idleCase, idleCPU, idleSince := -1, 0.0, time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			mu.Lock()
			cpu := cpuSeconds()
			if curCase >= 0 && cpu-curStart > cpuLimitPerCase {
				stop(VRec{Property: p.ID, Seed: seed, Tier: tier, Case: curCase,
					Msg: fmt.Sprintf("case consumed more than %.0f s of CPU time without finishing (no termination)", cpuLimitPerCase)})
			}
			if curCase < 0 || curCase != idleCase || cpu-idleCPU > 0.3 {
				idleCase, idleCPU, idleSince = curCase, cpu, time.Now()
			} else if time.Since(idleSince) > idleLimit {
				if st, blocked := allBlocked(); blocked {
					stop(VRec{Property: p.ID, Seed: seed, Tier: tier, Case: curCase, Stack: trunc(st, 6000),
						Msg: "deadlock: every goroutine of the case is blocked and has been for a long time"})
				}
				idleCase = -1
			}
			mu.Unlock()
		}
	}()
	quietLoggers()
	for i := shard; i < cases; i += shards {
		if only >= 0 && i != only {
			continue
		}
		jf.WriteAt([]byte(fmt.Sprintf("%-12d\n", i)), 0)
		mu.Lock()
		curCase, curStart = i, cpuSeconds()
		mu.Unlock()
		c := newCtx(p, seed, tier, i, dir, out.Cov)
		v := runCase(p, c, seed)
		mu.Lock()
		curCase = -1
		mu.Unlock()
		out.Evals++
		if c.nontriv {
			h := fnv.New64a()
			io.WriteString(h, c.desc.String())
			out.Nontrivial = append(out.Nontrivial, h.Sum64())
		}
		if len(out.Samples) < 2 && c.nontriv {
			out.Samples = append(out.Samples, fmt.Sprintf("case %d: %s", i, strings.TrimSpace(trunc(c.desc.String(), 600))))
		}
		if v != nil {
			out.Viol = append(out.Viol, *v)
			if len(out.Viol) >= 3 {
				break
			}
		}
	}
	b, err := json.Marshal(out)
	if err == nil {
		err = os.WriteFile(outFile, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func main() {
	propID := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	root := flag.String("root", ".", "verif root")
	replay := flag.String("replay", "", "replay file")
	shard := flag.Int("shard", -1, "child: shard")
	shards := flag.Int("shards", 8, "child: shards")
	cases := flag.Int("cases", -1, "number of cases")
	only := flag.Int("only", -1, "child: only this case")
	outFile := flag.String("out", "", "child: output")
	journal := flag.String("journal", "", "child: journal")
	dir := flag.String("dir", "", "child: scratch directory")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()

	if *list {
		ids := []string{}
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			fmt.Println(k)
		}
		return
	}
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(2)
	}
	if *shard >= 0 {
		childMain(p, *tier, *seed, *shard, *shards, *cases, *only, *outFile, *journal, *dir)
		return
	}
	os.Exit(parent(p, *tier, *seed, *root, *replay, *cases))
}

func parent(p *Prop, tier string, seed int64, root, replay string, casesFlag int) int {
	start := time.Now()
	cases := p.Quick
	if tier == "thorough" {
		cases = p.Thorough
	}
	if casesFlag > 0 {
		cases = casesFlag
	}
	n := p.Shards
	if n == 0 {
		n = 8
	}
	only := -1
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var v VRec
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		seed, tier, only = v.Seed, v.Tier, v.Case
		if only >= 0 {
			n, cases = 1, only+1
		} else {
			only = -1 // aggregate violation: replay is the whole run
			cases = p.Quick
			if tier == "thorough" {
				cases = p.Thorough
			}
		}
	}
	if n > cases {
		n = cases
	}
	tmp, err := os.MkdirTemp("", "nnmon-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	// The code under test runs as an unprivileged user who owns nothing but the scratch
	// directories, so that a save or a log gone astray reaches nothing real.
	demote := os.Geteuid() == 0 && canDemote(tmp)
	os.Chmod(tmp, 0755)
	type res struct {
		out    childOut
		ok     bool
		killed bool
		err    error
		stderr string
		jcase  int
		races  []string
	}
	results := make([]res, n)
	var wg sync.WaitGroup
	exe, _ := os.Executable()
	watchdog := 800 * time.Second
	if tier == "thorough" {
		watchdog = 6 * time.Hour
	}
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			runtime.LockOSThread() // Pdeathsig is tied to the starting thread
			d := filepath.Join(tmp, fmt.Sprintf("s%d", s))
			scratch := filepath.Join(d, "scratch")
			os.MkdirAll(scratch, 0755)
			of, jf := filepath.Join(d, "out.json"), filepath.Join(d, "journal")
			cmd := exec.Command(exe, "-prop", p.ID, "-tier", tier, "-seed", fmt.Sprint(seed),
				"-shard", fmt.Sprint(s), "-shards", fmt.Sprint(n), "-cases", fmt.Sprint(cases),
				"-only", fmt.Sprint(only), "-out", of, "-journal", jf, "-dir", scratch)
			cmd.Dir = scratch
			se, _ := os.Create(filepath.Join(d, "stderr"))
			cmd.Stderr = se
			so, _ := os.Create(filepath.Join(d, "stdout"))
			cmd.Stdout = so
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(d, "race"), "GOTRACEBACK=single")
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			if demote {
				for _, x := range []string{d, scratch} {
					os.Chown(x, nobody, nobody)
				}
				cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody}
			}
			r := &results[s]
			if err := cmd.Start(); err != nil {
				r.err = err
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			select {
			case <-done:
			case <-time.After(watchdog):
				cmd.Process.Kill()
				<-done
				r.killed = true
			}
			se.Close()
			so.Close()
			b, _ := os.ReadFile(filepath.Join(d, "stderr"))
			r.stderr = string(b)
			r.jcase = -1
			if b, e := os.ReadFile(jf); e == nil {
				fmt.Sscan(string(b), &r.jcase)
			}
			if b, e := os.ReadFile(of); e == nil && json.Unmarshal(b, &r.out) == nil {
				r.ok = true
			}
			logs, _ := filepath.Glob(filepath.Join(d, "race.*"))
			for _, l := range logs {
				b, _ := os.ReadFile(l)
				r.races = append(r.races, splitRaces(string(b))...)
			}
		}(s)
	}
	wg.Wait()

	cov := map[string]int64{}
	var evals int64
	distinct := map[uint64]bool{}
	var samples []string
	var viol []VRec
	status := 0
	raceReports := map[string]string{}
	for s := range results {
		r := &results[s]
		for _, rep := range r.races {
			raceReports[raceKey(rep)] = rep
		}
		if r.ok {
			evals += r.out.Evals
			for k, v := range r.out.Cov {
				cov[k] += v
			}
			for _, h := range r.out.Nontrivial {
				distinct[h] = true
			}
			if len(samples) < 3 {
				samples = append(samples, r.out.Samples...)
			}
			viol = append(viol, r.out.Viol...)
			continue
		}
		if r.killed {
			fmt.Printf("INCONCLUSIVE property=%s shard %d hit the wall-clock watchdog in case %d\n", p.ID, s, r.jcase)
			status = 3
			continue
		}
		if r.err != nil {
			fmt.Println("error:", r.err)
			status = 2
			continue
		}
		// The child died. A fatal error of the Go runtime in the code under test is a violation.
		if strings.Contains(r.stderr, "fatal error:") || strings.Contains(r.stderr, "cubeflix/nn.") || strings.Contains(r.stderr, "panic:") {
			viol = append(viol, VRec{Property: p.ID, Seed: seed, Tier: tier, Case: r.jcase,
				Msg: "process died: " + firstFatal(r.stderr), Stack: trunc(r.stderr, 6000)})
		} else {
			fmt.Printf("error: shard %d died in case %d without a Go runtime report\n%s\n", s, r.jcase, trunc(r.stderr, 2000))
			status = 2
		}
	}
	for _, k := range sortedKeys(raceReports) {
		rep := raceReports[k]
		if strings.Contains(rep, "github.com/cubeflix/nn.") {
			viol = append(viol, VRec{Property: p.ID, Seed: seed, Tier: tier, Case: -1, Msg: "data race reported by the race detector: " + k, Stack: trunc(rep, 6000)})
		} else {
			fmt.Println("error: race report without a frame of the code under test:\n" + trunc(rep, 3000))
			status = 2
		}
	}
	if p.Final != nil && len(viol) == 0 && status == 0 && replay == "" {
		if msg := p.Final(cov); msg != "" {
			viol = append(viol, VRec{Property: p.ID, Seed: seed, Tier: tier, Case: -1, Msg: msg})
		}
	}
	for k := range cov { // bookkeeping of Final only
		if strings.HasPrefix(k, "#") {
			delete(cov, k)
		}
	}
	known := loadKnown(filepath.Join(root, "known_findings.txt"), p.ID)
	var fresh []VRec
	seenKnown := map[string]bool{}
	for _, v := range viol {
		if k := matchKnown(known, v); k != "" {
			seenKnown[k] = true
		} else {
			fresh = append(fresh, v)
		}
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if status == 0 && len(fresh) == 0 && replay == "" {
		for _, k := range sortedKeys(p.Floors) {
			want := p.Floors[k]
			if casesFlag > 0 {
				break
			}
			if cov[k] < want {
				fmt.Printf("INCONCLUSIVE property=%s observed only %d of %q, needs %d\n", p.ID, cov[k], k, want)
				status = 3
			}
		}
	}
	coverage := map[string]interface{}{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                p.Rule,
		"samples":             samples,
		"observed":            cov,
		"shards":              n,
	}
	if p.Race {
		coverage["race_reports"] = len(raceReports)
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": coverage, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"assumptions": append([]string{"held means: on the executions counted under coverage, judged by the monitors described in DESIGN.md"}, p.Notes...),
	}
	if replay == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Println("error:", err)
			status = 2
		}
	}
	if len(fresh) > 0 {
		rd := filepath.Join(root, "replays")
		os.MkdirAll(rd, 0755)
		for i, v := range fresh {
			if i >= 5 {
				break
			}
			name := filepath.Join(rd, fmt.Sprintf("%s-%d-%s-%d.json", p.ID, v.Seed, v.Tier, v.Case))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(name, b, 0644)
			fmt.Printf("case %d: %s\n  %s\n", v.Case, v.Msg, trunc(v.Desc, 300))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, name)
		}
		return 1
	}
	if status == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d cases=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, tier, seed, evals, len(distinct), time.Since(start).Seconds())
		for _, k := range sortedKeys(cov) {
			fmt.Printf("  observed %-40s %d\n", k, cov[k])
		}
	}
	return status
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "fatal error:") || strings.HasPrefix(l, "panic:") {
			return l
		}
	}
	return trunc(s, 200)
}

// splitRaces cuts a race detector log into reports.
func splitRaces(s string) []string {
	var out []string
	for _, part := range strings.Split(s, "==================") {
		if strings.Contains(part, "WARNING: DATA RACE") {
			out = append(out, part)
		}
	}
	return out
}

// raceKey identifies a report by the functions of its two accesses.
func raceKey(rep string) string {
	var k []string
	lines := strings.Split(rep, "\n")
	for i, l := range lines {
		t := strings.TrimSpace(l)
		if (strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous ")) && i+1 < len(lines) {
			w := strings.Fields(t)
			f := strings.TrimSpace(lines[i+1])
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			k = append(k, w[0]+" "+f)
		}
	}
	return strings.Join(k, " / ")
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// known_findings.txt lines:
//
//	finding: property=<id> match=<substring of the message> ; <description>
//	fixed: property=<id> <commit> <what failed>        (suppresses nothing)
func loadKnown(path, id string) []string {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "finding: property="+id+" ") {
			out = append(out, strings.TrimPrefix(l, "finding: property="+id+" "))
		}
	}
	return out
}

func matchKnown(known []string, v VRec) string {
	for _, k := range known {
		m := strings.TrimPrefix(strings.SplitN(k, " ; ", 2)[0], "match=")
		if m != "" && strings.Contains(v.Msg, m) {
			return k
		}
	}
	return ""
}

// Loggers as they are in a program that never initialises them.
var pristineInfo, pristineWarning, pristineError = nn.InfoLogger, nn.WarningLogger, nn.ErrorLogger

func pristineLoggers() {
	nn.InfoLogger, nn.WarningLogger, nn.ErrorLogger = pristineInfo, pristineWarning, pristineError
}

func quietLoggers() {
	l := log.New(io.Discard, "", 0)
	nn.InfoLogger, nn.WarningLogger, nn.ErrorLogger = l, l, l
}

const nobody = 65534

// canDemote tells whether the monitors can be started as an unprivileged user.
func canDemote(dir string) bool {
	exe, err := os.Executable()
	if err != nil {
		return false
	}
	os.Chmod(dir, 0755)
	cmd := exec.Command(exe, "-prop", "none")
	cmd.Dir = dir
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	if err := cmd.Start(); err != nil {
		return false
	}
	cmd.Wait()
	return true
}
