// Package vf holds what the drivers share: reporting, evidence, known findings,
// deadlines, and a throw-away PostgreSQL cluster.
package vf

import (
	"bufio"
	"database/sql"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	_ "github.com/lib/pq"
)

var propFlag = flag.String("prop", "", "property id")
var crashFlag = flag.String("crash", "", "file with what the driver printed before it died")

// Run collects what one check explored and found.
type Run struct {
	Prop     string
	Tier     string
	Seed     int
	Level    string
	Coverage map[string]any
	Assume   []string

	dir      string
	start    time.Time
	deadline time.Time
	mu       sync.Mutex
	viol     []violation
	seen     map[string]bool
	known    []known
	hit      map[string]string
	samples  []any
	capped   []string
	notes    []string
	distinct map[string]struct{}
}

type violation struct{ key, detail string }
type known struct{ prop, key, what string }

// Start reads the flags and environment.
func Start() *Run {
	flag.Parse()
	r := &Run{Prop: *propFlag, Tier: os.Getenv("VERIF_TIER"), start: time.Now(), Coverage: map[string]any{}, seen: map[string]bool{}, hit: map[string]string{}, distinct: map[string]struct{}{}}
	if r.Tier != "thorough" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	r.dir = os.Getenv("VERIF_DIR")
	if r.dir == "" {
		r.dir = "/verif"
	}
	limit := 240 * time.Second
	if r.Thorough() {
		limit = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	r.deadline = r.start.Add(limit)
	f, err := os.Open(filepath.Join(r.dir, "known", "findings.txt"))
	if err == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			l := strings.TrimSpace(sc.Text())
			if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
				continue
			}
			// property=<id> key=<key> :: <what fails>
			var k known
			if !strings.HasPrefix(l, "property=") {
				continue
			}
			rest := strings.TrimPrefix(l, "property=")
			i := strings.Index(rest, " key=")
			if i < 0 {
				continue
			}
			k.prop = rest[:i]
			rest = rest[i+5:]
			if j := strings.Index(rest, " :: "); j >= 0 {
				k.key, k.what = rest[:j], rest[j+4:]
			} else {
				k.key = rest
			}
			r.known = append(r.known, k)
		}
		f.Close()
	}
	if *crashFlag != "" {
		r.Level = "model_checking"
		r.crashed(*crashFlag)
	}
	go r.watch()
	return r
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick returns q on the quick tier and t on the thorough one.
func (r *Run) Pick(q, t int) int {
	if r.Thorough() {
		return t
	}
	return q
}

// Expired reports whether the internal deadline passed; the run is then no longer exhaustive.
func (r *Run) Expired(what string) bool {
	if time.Now().Before(r.deadline) {
		return false
	}
	r.Cap("deadline reached in " + what)
	return true
}

// Left is the number of seconds until the internal deadline.
func (r *Run) Left() float64 { return time.Until(r.deadline).Seconds() }

// Cap records that something was not fully explored.
func (r *Run) Cap(what string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, c := range r.capped {
		if c == what {
			return
		}
	}
	r.capped = append(r.capped, what)
}

// Violation reports that the property failed; key identifies the specific input or history.
func (r *Run) Violation(key, format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	key = strings.Join(strings.Fields(key), "_")
	if r.seen[key] {
		return
	}
	r.seen[key] = true
	detail := fmt.Sprintf(format, args...)
	for _, k := range r.known {
		if k.prop == r.Prop && k.key == key {
			r.hit[k.key] = k.what
			return
		}
	}
	r.viol = append(r.viol, violation{key, detail})
	if os.Getenv("VERIF_FIRST") != "" {
		// for trying out planted changes: the first violation is enough
		fmt.Printf("FIRST property=%s key=%s\n%s\n", r.Prop, key, detail)
		RunCleanups()
		os.Exit(1)
	}
}

// NViol is the number of violations recorded so far.
func (r *Run) NViol() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.viol)
}

// Sample keeps up to six examples for the evidence file.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 6 {
		r.samples = append(r.samples, v)
	}
}

// Outcome counts a distinct non-trivial outcome.
func (r *Run) Outcome(s string) {
	r.mu.Lock()
	r.distinct[s] = struct{}{}
	r.mu.Unlock()
}

func (r *Run) NOutcomes() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.distinct)
}

// Add adds n to a counter of the coverage.
func (r *Run) Add(name string, n int) {
	r.mu.Lock()
	c, _ := r.Coverage[name].(int)
	r.Coverage[name] = c + n
	r.mu.Unlock()
}

func (r *Run) Assumption(s string) { r.Assume = append(r.Assume, s) }

// Fatal ends the check as an error of the check.
func (r *Run) Fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", args...)
	r.mu.Lock()
	n := len(r.viol)
	r.mu.Unlock()
	if n > 0 {
		// what was found before counts
		r.Cap("ended by: " + fmt.Sprintf(format, args...))
		r.Finish()
	}
	RunCleanups()
	os.Exit(2)
}

// Finish writes the evidence and exits.
func (r *Run) Finish() {
	RunCleanups()
	sort.SliceStable(r.viol, func(i, j int) bool { return len(r.viol[i].key) < len(r.viol[j].key) })
	r.Coverage["samples"] = r.samples
	r.Coverage["exhaustive"] = len(r.capped) == 0
	if len(r.capped) > 0 {
		r.Coverage["caps"] = r.capped
	}
	r.Coverage["distinct_outcomes"] = len(r.distinct)
	keys := make([]string, 0, len(r.hit))
	for k := range r.hit {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s :: %s\n", r.Prop, k, r.hit[k])
	}
	r.Coverage["known_findings_seen"] = len(r.hit)
	ev := map[string]any{
		"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": r.Level,
		"coverage": r.Coverage, "wall_s": time.Since(r.start).Seconds(), "violations": len(r.viol),
	}
	if r.Assume != nil {
		ev["assumptions"] = r.Assume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	os.MkdirAll(filepath.Join(r.dir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(r.dir, "evidence", r.Prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(2)
	}
	for k, v := range r.Coverage {
		if n, ok := v.(int); ok {
			fmt.Printf("%s %s: %d\n", r.Prop, k, n)
		}
	}
	if len(r.viol) == 0 {
		fmt.Printf("%s held on everything explored (%.1fs, exhaustive=%v)\n", r.Prop, time.Since(r.start).Seconds(), len(r.capped) == 0)
		os.Exit(0)
	}
	os.MkdirAll(filepath.Join(r.dir, "replays"), 0o755)
	n := len(r.viol)
	if n > 25 && os.Getenv("VERIF_ALL") == "" {
		n = 25
	}
	for i, v := range r.viol[:n] {
		p := filepath.Join(r.dir, "replays", fmt.Sprintf("%s-%d.txt", r.Prop, i+1))
		os.WriteFile(p, []byte("property: "+r.Prop+"\nkey: "+v.key+"\n\n"+v.detail+"\n"), 0o644)
		d := v.detail
		if len(d) > 700 {
			d = d[:700] + "..."
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  key: %s\n  %s\n", r.Prop, p, v.key, strings.ReplaceAll(d, "\n", "\n  "))
	}
	if len(r.viol) > n {
		fmt.Printf("... and %d more violations\n", len(r.viol)-n)
	}
	os.Exit(1)
}

////////////////////////////////////////////////////////////////////////////////

var cleanups []func()
var cleanMu sync.Mutex

func OnExit(f func()) { cleanMu.Lock(); cleanups = append(cleanups, f); cleanMu.Unlock() }

func RunCleanups() {
	cleanMu.Lock()
	defer cleanMu.Unlock()
	for i := len(cleanups) - 1; i >= 0; i-- {
		cleanups[i]()
	}
	cleanups = nil
}

// Work is the scratch directory of this run (made and removed by ./check).
func Work() string {
	w := os.Getenv("VERIF_WORK")
	if w == "" {
		var err error
		if w, err = os.MkdirTemp("/tmp", "vf-work."); err != nil {
			panic(err)
		}
		os.Chmod(w, 0o755)
		os.Setenv("VERIF_WORK", w)
		OnExit(func() { os.RemoveAll(w) })
	}
	return w
}

// PG is a throw-away cluster reached through a unix socket in its own directory.
type PG struct{ dir string }

const pgbin = "/usr/lib/postgresql/16/bin"

func asPG(dir string, args ...string) ([]byte, error) {
	a := append([]string{"--reuid=postgres", "--regid=postgres", "--clear-groups", "env", "-i", "PATH=" + os.Getenv("PATH"), "LANG=C.UTF-8", "TZ=UTC"}, args...)
	c := exec.Command("setpriv", a...)
	c.Dir = dir
	return c.CombinedOutput()
}

// StartPG creates and starts the cluster.
func (r *Run) StartPG() *PG {
	dir := filepath.Join(Work(), "pg")
	if err := os.Mkdir(dir, 0o755); err != nil {
		r.Fatal("%v", err)
	}
	if out, err := exec.Command("chown", "postgres:postgres", dir).CombinedOutput(); err != nil {
		r.Fatal("chown: %s", out)
	}
	if out, err := asPG(dir, pgbin+"/initdb", "-D", dir+"/data", "-U", "postgres", "-A", "trust", "-E", "UTF8", "--locale=C.UTF-8", "--lc-monetary=C", "--no-sync", "--no-instructions"); err != nil {
		r.Fatal("initdb: %s", out)
	}
	if out, err := asPG(dir, pgbin+"/pg_ctl", "-D", dir+"/data", "-w", "-t", "60", "-l", dir+"/server.log",
		"-o", "-c listen_addresses='' -k "+dir+" -c fsync=off -c synchronous_commit=off -c full_page_writes=off -c timezone=Europe/Zagreb -c dynamic_shared_memory_type=mmap -c max_connections=60 -c shared_buffers=64MB -c autovacuum=off", "start"); err != nil {
		b, _ := os.ReadFile(dir + "/server.log")
		r.Fatal("pg_ctl: %s\n%s", out, b)
	}
	OnExit(func() { asPG(dir, pgbin+"/pg_ctl", "-D", dir+"/data", "-m", "immediate", "-w", "stop") })
	os.Setenv("PGHOST", dir)
	os.Setenv("PGPORT", "5432")
	os.Setenv("PGUSER", "postgres")
	os.Setenv("TZ", "UTC")
	return &PG{dir: dir}
}

// DSN is a connection string for the named database.
func (p *PG) DSN(db string) string {
	return fmt.Sprintf("host=%s port=5432 user=postgres dbname=%s sslmode=disable", p.dir, db)
}

// URL is the same as a postgres:// URL.
func (p *PG) URL(db string) string {
	return fmt.Sprintf("postgres://postgres@/%s?host=%s&port=5432&sslmode=disable", db, p.dir)
}

// Open connects to the named database.
func (p *PG) Open(r *Run, db string) *sql.DB {
	d, err := sql.Open("postgres", p.DSN(db))
	if err == nil {
		err = d.Ping()
	}
	if err != nil {
		r.Fatal("open %s: %v", db, err)
	}
	d.SetMaxIdleConns(16)
	return d
}

// Exec runs statements that must not fail.
func (r *Run) Exec(d *sql.DB, q string) {
	if _, err := d.Exec(q); err != nil {
		r.Fatal("setup %.300q: %v", q, err)
	}
}

// Par calls f(0..n-1) on w workers; f gets the worker's number.
func Par(w, n int, f func(worker, i int)) {
	var wg sync.WaitGroup
	ch := make(chan int, 4*w)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for i := range ch {
				f(k, i)
			}
		}(k)
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
