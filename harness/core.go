// Package main: vmon, the runtime-monitoring harness for vfilter.
//
// vmon -prop C01 -tier quick -seed 1       parent: shards, merges, verdict
// vmon -child ...                          one shard (crash-isolated)
// vmon -prop C01 -case group/index         replay of one case, verbose
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"www.velocidex.com/golang/vfilter"
)

// Group is a family of cases; a case is (group, index) and is a pure function of the seed.
type Group struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *Case)
}

type Property struct {
	ID     string
	Rule   string
	Groups []Group
	Assume []string
	Race   bool // needs the -race build
	// serial: run all shards of this property with at most this many processes (0 = 8)
	Shards int
}

var properties = map[string]*Property{}

// quickBoost multiplies the quick case counts of properties whose cases are cheap.
var quickBoost = map[string]int{
	"C01": 6, "C02": 4, "C04": 5, "C05": 8, "C06": 8, "C07": 4, "C08": 4, "C09": 8, "C10": 6, "C11": 2, "C12": 2, "C13": 2,
	"C15": 2, "C20": 5, "C21": 2, "C22": 8, "C24": 5, "C25": 5, "C26": 5, "C27": 2, "C28": 5, "C29": 12, "C30": 2, "C32": 5, "C33": 8, "C34": 8, "C35": 6,
	"C36": 6, "C37": 6, "C38": 6,
}

func register(p *Property) {
	if k := quickBoost[p.ID]; k > 1 {
		for i := range p.Groups {
			if g := &p.Groups[i]; g.Quick >= 100 && g.Thorough > g.Quick*k {
				g.Quick *= k
			}
		}
	}
	properties[p.ID] = p
}

// Case is the per-case context handed to monitors.
type Case struct {
	Prop, Group string
	Index       int
	Seed        int64
	Tier        string
	R           *rand.Rand
	T           *testing.T
	Verbose     bool

	st   *shard
	desc string
	// did the case observe anything non-trivial?
	keys []string
}

type Violation struct {
	Group, Msg, Desc string
	Index            int
}

type shardResult struct {
	Evals      int
	Hashes     []uint64
	Samples    []string
	Counters   map[string]int64
	Violations []Violation
	Known      []string
	Inconcl    []string
	Done       bool
}

type shard struct {
	mu     sync.Mutex
	res    shardResult
	seen   map[uint64]bool
	jf     *os.File
	cur    string
	curAt  time.Time
	curCPU time.Duration
	out    string
	known  map[string]string
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Desc records (journals) what the case is about to execute.
func (c *Case) Desc(format string, args ...interface{}) {
	d := format
	if len(args) > 0 {
		d = fmt.Sprintf(format, args...)
	}
	if c.desc != "" {
		d = c.desc + "\n" + d
	}
	if len(d) > 6000 {
		d = d[:6000] + "..."
	}
	c.desc = d
	c.st.journal(fmt.Sprintf("%s/%d\n%s", c.Group, c.Index, d))
	if c.Verbose {
		fmt.Println("  |", strings.ReplaceAll(fmt.Sprintf(format, args...), "\n", "\n  | "))
	}
}

// Seen marks one distinct non-trivial observation (deduplicated by key).
func (c *Case) Seen(key string) {
	h := hash64(c.Prop + "\x00" + key)
	c.st.mu.Lock()
	if !c.st.seen[h] {
		c.st.seen[h] = true
		c.st.res.Hashes = append(c.st.res.Hashes, h)
	}
	c.st.mu.Unlock()
}

// Eval counts n evaluations (executions of the real code judged by an oracle).
func (c *Case) Eval(n int) {
	c.st.mu.Lock()
	c.st.res.Evals += n
	c.st.mu.Unlock()
}

func (c *Case) Count(name string, n int) {
	c.st.mu.Lock()
	c.st.res.Counters[name] += int64(n)
	c.st.mu.Unlock()
}

func (c *Case) Sample(format string, args ...interface{}) {
	c.st.mu.Lock()
	if len(c.st.res.Samples) < 3 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.st.res.Samples = append(c.st.res.Samples, s)
	}
	c.st.mu.Unlock()
}

// Fail records a violation.
func (c *Case) Fail(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 8000 {
		msg = msg[:8000] + "..."
	}
	if c.Verbose {
		fmt.Println("  !! VIOLATION:", msg)
	}
	c.st.mu.Lock()
	if len(c.st.res.Violations) < 20 {
		c.st.res.Violations = append(c.st.res.Violations, Violation{c.Group, msg, c.desc, c.Index})
	} else {
		c.st.res.Counters["further_violations"]++
	}
	c.st.mu.Unlock()
}

func (c *Case) Inconclusive(format string, args ...interface{}) {
	c.st.mu.Lock()
	c.st.res.Inconcl = append(c.st.res.Inconcl, c.Group+": "+fmt.Sprintf(format, args...))
	c.st.mu.Unlock()
}

// Known reports the state of one listed finding: fails says whether the defect is still there.  A finding which is not
// in the known-findings file is a violation.
func (c *Case) Known(id string, fails bool, what string) {
	if !fails {
		return
	}
	c.st.mu.Lock()
	text, listed := c.st.known[id]
	if listed {
		c.st.res.Known = append(c.st.res.Known, fmt.Sprintf("%s [%s] %s", text, id, ""))
	}
	c.st.mu.Unlock()
	if !listed {
		c.Fail("finding %s: %s", id, what)
	}
}

func (s *shard) journal(text string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.jf != nil {
		buf := []byte(text)
		s.jf.Truncate(0)
		s.jf.WriteAt(buf, 0)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func (s *shard) flush() {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, _ := json.Marshal(&s.res)
	os.WriteFile(s.out, b, 0644)
}

func newCase(s *shard, p *Property, g *Group, idx int, seed int64, tier string, t *testing.T) *Case {
	h := hash64(fmt.Sprintf("%s/%s/%d/%d", p.ID, g.Name, idx, seed))
	return &Case{Prop: p.ID, Group: g.Name, Index: idx, Seed: seed, Tier: tier,
		R: rand.New(rand.NewSource(int64(h))), T: t, st: s}
}

func (s *shard) runOne(c *Case, g *Group) {
	s.mu.Lock()
	s.cur = fmt.Sprintf("%s/%d", c.Group, c.Index)
	s.curAt = time.Now()
	s.curCPU = cpuTime()
	s.mu.Unlock()
	s.journal(s.cur + "\n")
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 5000 {
				st = st[:5000]
			}
			c.Fail("panic: %v\n%s", r, st)
		}
	}()
	g.Run(c)
}

// watchdog: decides non-termination of the current case.  A deadlock verdict is state based: every goroutine but this
// one is blocked in a wait that no timer can end, twice in a row with the same stacks.  A busy non-termination verdict
// is based on consumed CPU time (about 10^4 times what a case normally needs).  Anything else is inconclusive.
func (s *shard) watchdog(cpuLimit time.Duration) {
	prev := ""
	for {
		time.Sleep(2 * time.Second)
		s.mu.Lock()
		cur, at, cpu := s.cur, s.curAt, s.curCPU
		s.mu.Unlock()
		if cur == "" || time.Since(at) < 6*time.Second {
			prev = ""
			continue
		}
		used := cpuTime() - cpu
		if used > cpuLimit {
			s.die(fmt.Sprintf("did not terminate: case %s consumed %v of CPU time (bound %v)\n%s", cur, used, cpuLimit, stacks()))
		}
		st := stacks()
		if ok := allBlocked(st); ok && stripTimes(st) == prev && prev != "" {
			s.die(fmt.Sprintf("deadlock in case %s: all goroutines are blocked for ever\n%s", cur, st))
		} else if ok {
			prev = stripTimes(st)
		} else {
			prev = ""
		}
		if time.Since(at) > 300*time.Second {
			s.mu.Lock()
			s.res.Inconcl = append(s.res.Inconcl, "watchdog expired in "+cur)
			s.mu.Unlock()
			s.flush()
			os.Exit(7)
		}
	}
}

func (s *shard) die(msg string) {
	parts := strings.SplitN(s.cur, "/", 2)
	idx := 0
	if len(parts) == 2 {
		fmt.Sscanf(parts[1], "%d", &idx)
	}
	if len(msg) > 12000 {
		msg = msg[:12000]
	}
	var desc string
	if s.jf != nil {
		b, _ := os.ReadFile(s.jf.Name())
		desc = string(b)
	}
	s.mu.Lock()
	s.res.Violations = append(s.res.Violations, Violation{parts[0], msg, desc, idx})
	s.mu.Unlock()
	s.flush()
	fmt.Fprintln(os.Stderr, msg)
	os.Exit(8)
}

func stacks() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// stripTimes removes ", 5 minutes" style ages and addresses so that snapshots compare.
func stripTimes(st string) string {
	var out []string
	for _, g := range strings.Split(st, "\n\n") {
		lines := strings.Split(g, "\n")
		if strings.Contains(g, "main.(*shard).watchdog") {
			continue
		}
		h := lines[0]
		if i := strings.Index(h, ","); i >= 0 {
			if j := strings.Index(h, "]"); j > i {
				h = h[:i] + h[j:]
			}
		}
		lines[0] = h
		out = append(out, strings.Join(lines, "\n"))
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func goroutineState(g string) string {
	i := strings.Index(g, "[")
	j := strings.Index(g, "]")
	if i < 0 || j < i {
		return ""
	}
	st := g[i+1 : j]
	if k := strings.Index(st, ","); k >= 0 {
		st = st[:k]
	}
	return st
}

// allBlocked: every goroutine except the watchdog waits on something only another goroutine could provide.
func allBlocked(st string) bool {
	n := 0
	for _, g := range strings.Split(st, "\n\n") {
		if strings.Contains(g, "main.(*shard).watchdog") || strings.TrimSpace(g) == "" {
			continue
		}
		state := strings.TrimSuffix(goroutineState(g), " (durable)")
		switch state {
		case "chan receive", "chan send", "select", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock",
			"sync.WaitGroup.Wait", "sync.Cond.Wait", "semacquire", "chan receive (nil chan)", "chan send (nil chan)",
			"select (no cases)", "synctest.Run", "synctest.Wait":
			n++
		case "finalizer wait", "GC worker (idle)", "GC sweep wait", "GC scavenge wait", "force gc (idle)", "cleanup wait":
		default:
			return false
		}
	}
	return n > 0
}

func loadKnown(prop string) map[string]string {
	res := map[string]string{}
	f, err := os.Open(knownPath())
	if err != nil {
		return res
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		// known: property=C12 id=xyz text...
		if !strings.HasPrefix(line, "known:") {
			continue
		}
		fields := strings.Fields(line)
		if len(fields) < 4 || fields[1] != "property="+prop || !strings.HasPrefix(fields[2], "id=") {
			continue
		}
		res[strings.TrimPrefix(fields[2], "id=")] = strings.Join(fields[3:], " ")
	}
	return res
}

func rootDir() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func knownPath() string { return filepath.Join(rootDir(), "KNOWN_FINDINGS.txt") }

var (
	flProp  = flag.String("prop", "", "property")
	flTier  = flag.String("tier", "quick", "quick or thorough")
	flSeed  = flag.Int64("seed", 1, "seed")
	flChild = flag.Bool("child", false, "")
	flShard = flag.Int("shard", 0, "")
	flOf    = flag.Int("of", 1, "")
	flStart = flag.Int("start", 0, "")
	flOut   = flag.String("out", "", "")
	flJrn   = flag.String("journal", "", "")
	flCase  = flag.String("case", "", "group/index")
	flGroup = flag.String("group", "", "only this group (development)")
	flScale = flag.Float64("scale", 1, "scale case counts (development)")
	flWork  = flag.String("work", "", "scratch directory")
	flVerb  = flag.Bool("v", false, "")
)

func (g *Group) count(tier string) int {
	n := g.Quick
	if tier == "thorough" {
		n = g.Thorough
		if n == 0 {
			n = g.Quick * 10
		}
	}
	if *flScale != 1 {
		n = int(float64(n)**flScale) + 1
	}
	return n
}

func childMain(t *testing.T) {
	p := properties[*flProp]
	s := &shard{seen: map[uint64]bool{}, out: *flOut, known: loadKnown(p.ID)}
	s.res.Counters = map[string]int64{}
	if *flJrn != "" {
		s.jf, _ = os.Create(*flJrn)
	}
	go s.watchdog(90 * time.Second)
	flat := 0
	for gi := range p.Groups {
		g := &p.Groups[gi]
		if *flGroup != "" && *flGroup != g.Name {
			continue
		}
		n := g.count(*flTier)
		for i := 0; i < n; i++ {
			f := flat
			flat++
			if f%*flOf != *flShard || f < *flStart {
				continue
			}
			c := newCase(s, p, g, i, *flSeed, *flTier, t)
			s.res.Counters["__flat"] = int64(f)
			s.runOne(c, g)
			if len(s.res.Violations) >= 20 {
				s.res.Done = true
				s.flush()
				return
			}
		}
	}
	s.mu.Lock()
	s.cur = ""
	s.mu.Unlock()
	s.res.Done = true
	s.flush()
}

func replayMain(t *testing.T) int {
	p := properties[*flProp]
	parts := strings.SplitN(*flCase, "/", 2)
	idx := 0
	fmt.Sscanf(parts[1], "%d", &idx)
	s := &shard{seen: map[uint64]bool{}, known: loadKnown(p.ID)}
	s.res.Counters = map[string]int64{}
	go s.watchdog(90 * time.Second)
	for gi := range p.Groups {
		g := &p.Groups[gi]
		if g.Name == parts[0] {
			c := newCase(s, p, g, idx, *flSeed, *flTier, t)
			c.Verbose = true
			s.runOne(c, g)
		}
	}
	for _, k := range s.res.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	if len(s.res.Violations) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s/%d\n", p.ID, parts[0], idx)
		return 1
	}
	fmt.Println("case holds")
	return 0
}

type merged struct {
	sync.Mutex
	evals    int
	hashes   map[uint64]bool
	samples  []string
	counters map[string]int64
	viols    []Violation
	known    map[string]bool
	inconcl  []string
	crashes  int
}

func (m *merged) add(r *shardResult) {
	m.Lock()
	defer m.Unlock()
	m.evals += r.Evals
	for _, h := range r.Hashes {
		m.hashes[h] = true
	}
	m.samples = append(m.samples, r.Samples...)
	for k, v := range r.Counters {
		if !strings.HasPrefix(k, "__") {
			m.counters[k] += v
		}
	}
	m.viols = append(m.viols, r.Violations...)
	for _, k := range r.Known {
		m.known[k] = true
	}
	m.inconcl = append(m.inconcl, r.Inconcl...)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func runShard(p *Property, i, of int, work string, m *merged) {
	start := 0
	for attempt := 0; attempt < 6; attempt++ {
		out := filepath.Join(work, fmt.Sprintf("out.%d.%d", i, attempt))
		jrn := filepath.Join(work, fmt.Sprintf("jrn.%d.%d", i, attempt))
		errf := filepath.Join(work, fmt.Sprintf("err.%d.%d", i, attempt))
		ef, _ := os.Create(errf)
		args := []string{"-child", "-prop", p.ID, "-tier", *flTier, "-seed", fmt.Sprint(*flSeed),
			"-shard", fmt.Sprint(i), "-of", fmt.Sprint(of), "-start", fmt.Sprint(start), "-out", out, "-journal", jrn,
			"-scale", fmt.Sprint(*flScale), "-group", *flGroup, "-work", work}
		cmd := exec.Command(os.Args[0], args...)
		cmd.Stdout = io.Discard
		cmd.Stderr = ef
		cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GOMEMLIMIT=3GiB")
		if p.Race {
			cmd.Env = append(cmd.Env, fmt.Sprintf("GORACE=halt_on_error=0 exitcode=0 log_path=%s", filepath.Join(work, "race")))
		}
		err := cmd.Run()
		ef.Close()
		var r shardResult
		b, rerr := os.ReadFile(out)
		if rerr == nil {
			json.Unmarshal(b, &r)
			m.add(&r)
			if r.Done {
				return
			}
		}
		// The child ended abnormally.
		jb, _ := os.ReadFile(jrn)
		eb, _ := os.ReadFile(errf)
		head, desc, _ := strings.Cut(string(jb), "\n")
		parts := strings.SplitN(head, "/", 2)
		idx := 0
		if len(parts) == 2 {
			fmt.Sscanf(parts[1], "%d", &idx)
		}
		m.Lock()
		m.crashes++
		m.Unlock()
		if rerr != nil {
			es := string(eb)
			if len(es) > 6000 {
				es = es[:4500] + "\n...\n" + es[len(es)-1500:]
			}
			if strings.Contains(err.Error(), "signal: killed") {
				m.Lock()
				m.inconcl = append(m.inconcl, "child killed in "+head)
				m.Unlock()
			} else {
				m.Lock()
				m.viols = append(m.viols, Violation{parts[0], fmt.Sprintf("the process crashed (%v):\n%s", err, es), desc, idx})
				m.Unlock()
			}
		}
		// continue after the offending case
		flat := 0
		found := false
		for gi := range p.Groups {
			g := &p.Groups[gi]
			if *flGroup != "" && *flGroup != g.Name {
				continue
			}
			if g.Name == parts[0] {
				start = flat + idx + 1
				found = true
				break
			}
			flat += g.count(*flTier)
		}
		if !found {
			return
		}
	}
}

func parentMain() int {
	began := time.Now()
	p := properties[*flProp]
	if p == nil {
		fmt.Println("unknown property", *flProp)
		return 2
	}
	work := *flWork
	if work == "" {
		work, _ = os.MkdirTemp("", "vmon")
		defer os.RemoveAll(work)
	}
	m := &merged{hashes: map[uint64]bool{}, counters: map[string]int64{}, known: map[string]bool{}}
	n := p.Shards
	if n == 0 {
		n = 8
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			runShard(p, i, n, work, m)
		}(i)
	}
	wg.Wait()
	if p.Race {
		collectRaces(p, work, m)
	}

	for k := range m.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	sort.Slice(m.viols, func(i, j int) bool {
		a, b := m.viols[i], m.viols[j]
		if a.Group != b.Group {
			return a.Group < b.Group
		}
		return a.Index < b.Index
	})
	rdir := filepath.Join(rootDir(), "evidence", "replays")
	os.MkdirAll(rdir, 0755)
	for i, v := range m.viols {
		if i >= 5 {
			break
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.txt", p.ID, v.Group, v.Index))
		text := fmt.Sprintf("property: %s\nreplay: VERIF_SEED=%d VERIF_CASE=%s/%d bash /verif/run.sh %s %s\n\ncase:\n%s\n\nobserved:\n%s\n",
			p.ID, *flSeed, v.Group, v.Index, p.ID, *flTier, v.Desc, v.Msg)
		os.WriteFile(path, []byte(text), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		first, _, _ := strings.Cut(v.Msg, "\n")
		fmt.Printf("  %s/%d: %s\n", v.Group, v.Index, first)
	}
	for _, s := range m.inconcl {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", p.ID, s)
	}
	samples := m.samples
	if len(samples) > 6 {
		step := len(samples) / 6
		var out []string
		for i := 0; i < len(samples) && len(out) < 6; i += step {
			out = append(out, samples[i])
		}
		samples = out
	}
	cov := map[string]interface{}{
		"evaluations":         m.evals,
		"distinct_nontrivial": len(m.hashes),
		"rule":                p.Rule,
		"samples":             samples,
		"observed":            m.counters,
		"child_crashes":       m.crashes,
		"inconclusive":        len(m.inconcl),
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *flTier, "seed": *flSeed, "level": "exploration",
		"coverage": cov, "assumptions": append([]string{"generators and reference model of /verif/harness"}, p.Assume...),
		"wall_s": time.Since(began).Seconds(), "violations": len(m.viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(rootDir(), "evidence", p.ID+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s %s seed=%d: %d evaluations, %d distinct, %d violations, %d inconclusive, %.1fs\n",
		p.ID, *flTier, *flSeed, m.evals, len(m.hashes), len(m.viols), len(m.inconcl), time.Since(began).Seconds())
	if *flVerb {
		cb, _ := json.MarshalIndent(m.counters, "", " ")
		fmt.Println(string(cb))
	}
	if len(m.viols) > 0 {
		return 1
	}
	if len(m.inconcl) > 0 || m.evals == 0 || len(m.hashes) == 0 {
		fmt.Println("no verdict: nothing observed or inconclusive cases")
		return 3
	}
	return 0
}

func main() {
	testing.Init()
	flag.Parse()
	os.Args = os.Args[:1]
	if text := os.Getenv("VMON_DEMO"); text != "" {
		demoMain(text)
		return
	}
	if *flProp == "list" {
		var ids []string
		for k := range properties {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *flChild || *flCase != "" {
		testing.Main(func(a, b string) (bool, error) { return true, nil },
			[]testing.InternalTest{{Name: "vmon", F: func(t *testing.T) {
				code := 0
				if *flChild {
					childMain(t)
				} else {
					code = replayMain(t)
				}
				os.Exit(code)
			}}}, nil, nil)
		return
	}
	os.Exit(parentMain())
}

// demoMain evaluates text in this process and says so at the end: for queries which are
// known to end it.  See demo().
func demoMain(text string) {
	stmts, err := vfilter.MultiParse(text)
	if err != nil {
		fmt.Println("demo:", err)
		return
	}
	e := NewEngine(plainHost())
	for _, s := range stmts {
		for range s.Eval(context.Background(), e.Scope) {
		}
	}
	fmt.Println("demo: ended")
}

// demo evaluates text in a process of its own: "" if it came to its end, or how it died
func demo(text string, limit time.Duration) string {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0])
	cmd.Env = append(os.Environ(), "VMON_DEMO="+text)
	out, err := cmd.CombinedOutput()
	if strings.Contains(string(out), "demo: ended") {
		return ""
	}
	line := string(out)
	if i := strings.Index(line, "fatal error"); i >= 0 {
		line = line[i:]
	}
	line, _, _ = strings.Cut(line, "\n")
	return fmt.Sprintf("%v: %.200s", err, line)
}

// bubble runs f under virtual time; it returns a description of goroutines left blocked for ever, or "".
func bubble(t *testing.T, f func()) (left string) {
	defer func() {
		if r := recover(); r != nil {
			left = fmt.Sprint(r)
		}
	}()
	var inner interface{}
	synctest.Test(t, func(t *testing.T) {
		defer func() {
			if r := recover(); r != nil {
				inner = fmt.Sprintf("%v\n%s", r, debug.Stack())
			}
		}()
		f()
	})
	if inner != nil {
		return fmt.Sprint("panic: ", inner)
	}
	return ""
}

// census returns the stacks of the goroutines of the current bubble which have library frames.
func census() []string {
	var out []string
	own := ""
	all := strings.Split(stacks(), "\n\n")
	for _, g := range all {
		h, rest, _ := strings.Cut(g, "\n")
		if i := strings.Index(h, "synctest bubble"); i >= 0 && strings.Contains(rest, "main.census") {
			own = strings.TrimRight(h[i:], "]:")
		}
	}
	for _, g := range all {
		h, rest, _ := strings.Cut(g, "\n")
		if own == "" || !strings.Contains(h, own+"]") || strings.Contains(rest, "main.census") {
			continue
		}
		if strings.Contains(rest, "www.velocidex.com/golang/vfilter") {
			out = append(out, g)
		}
	}
	return out
}
