// Driver for C14: what processing a declaration gives does not depend on what was processed before.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/frk/gosql/internal/config"
	"github.com/frk/gosql/internal/vfdrv/vf"
)

const nworkers = 8

type cfgVar struct {
	name string
	set  func(c *config.Config, univ string)
}

var cfgs = []cfgVar{
	{"default", func(c *config.Config, u string) {}},
	{"db_", func(c *config.Config, u string) {
		c.FilterColumnKeyTag.Value, c.FilterColumnKeySeparator.Value = "db", "_"
	}},
	{"base", func(c *config.Config, u string) { c.FilterColumnKeyBase.Value = true }},
	{"names", func(c *config.Config, u string) {
		c.FilterColumnKeyTag.Value, c.MethodName.Value = "", "Run"
	}},
	{"quoted", func(c *config.Config, u string) { c.QuoteIdentifiers.Value = true }},
	{"ctx", func(c *config.Config, u string) { c.MethodWithContext.Value = true }},
	{"arg", func(c *config.Config, u string) {
		c.MethodArgumentType = config.GoType{Name: "DB", PkgPath: "database/sql", PkgName: "sql", IsPtr: true}
	}},
	{"conv", func(c *config.Config, u string) {
		c.FilterValueConverters = []config.FilterValueConverter{{
			Type: config.ObjectIdent{PkgPath: u + "m", Name: "Text"}, Func: config.ObjectIdent{PkgPath: u + "m", Name: "Conv"}}}
	}},
}

// declarations also processed under the other configurations
var varied = []string{"qa.SelectOne", "qa.SelectMany", "qa.InsertMany", "qa.UpdateWhere", "qa.DeleteRet", "qa.FilterUser", "qa.FilterNested", "qa.FilterImpFields", "qb.FilterImp", "qb.FilterQA", "m.FilterUser", "qa.FilterImpX"}

// the declarations of longer histories
var core = []string{"qa.SelectOne", "qa.SelectImp", "qa.SelectUsers", "qa.SelectIter", "qa.SelectBadMode", "qa.InsertBadMode", "qa.SelectBadTag", "qa.UpdateBadTag", "qa.SelectHalf", "qa.SelectBadWhere", "qa.InsertForce", "qa.InsertNoForce", "qa.UpdateWhere",
	"qa.FilterUser", "qa.FilterImp", "qa.FilterImpX", "qb.SelectOne", "qb.SelectImp", "qb.SelectHalf", "qb.SelectQA", "qb.FilterImp", "m.SelectOne", "m.SelectHalf", "qa.SelectDup", "qa.SelectDupO"}

type driver struct {
	odd    bool
	r      *vf.Run
	st     setup
	events []event
	byName map[string]event
	exe    string
	stats  map[string]int
}

func main() {
	if os.Getenv("VF_HIST_CHILD") != "" {
		runChild()
	}
	r := vf.Start()
	d := &driver{r: r, byName: map[string]event{}, stats: map[string]int{}}
	if r.Prop != "C14" {
		r.Fatal("unknown property %s", r.Prop)
	}
	r.Level = "model_checking"
	var err error
	if d.exe, err = os.Executable(); err != nil {
		r.Fatal("%v", err)
	}
	if !mapControl {
		r.Cap("map iteration orders (the Go runtime is not the expected one)")
	}
	pg := r.StartPG()
	db := pg.Open(r, "postgres")
	r.Exec(db, schema+matrixSchema())
	db.Close()
	d.st.DSN = pg.URL("postgres")
	d.exports()

	for i, dc := range decls[:matrixFrom] {
		d.events = append(d.events, event{i, 0})
		d.byName[dc.pkg+"."+dc.name] = event{i, 0}
	}
	plain := len(d.events)
	for _, n := range varied {
		e, ok := d.byName[n]
		if !ok {
			r.Fatal("no declaration %s", n)
		}
		for c := 1; c < len(cfgs); c++ {
			d.events = append(d.events, event{e.Decl, c})
		}
	}

	// the baseline: every event alone in a new process
	bases := map[string]base{}
	var mu sync.Mutex
	vf.Par(nworkers, len(d.events), func(_, i int) {
		reps := d.process([]*job{{ID: 0, Slots: []event{d.events[i]}, Steps: "A0C0W0", Give: true}})
		if len(reps) != 1 || reps[0].Given == nil {
			r.Fatal("baseline of %v: %+v", d.events[i], reps)
		}
		mu.Lock()
		bases[d.events[i].String()] = *reps[0].Given
		mu.Unlock()
	})
	d.st.Base = bases
	rejected, unexpected := 0, 0
	for _, e := range d.events {
		b := d.st.Base[e.String()]
		r.Outcome(b.Err + b.Text)
		if b.Err != "" {
			rejected++
			if os.Getenv("VF_REJECTED") != "" {
				fmt.Println("rejected:", e, strings.ReplaceAll(b.Err, "\n", " | "))
			}
		}
		if bad := strings.Contains(decls[e.Decl].name, "Bad"); bad != (b.Err != "") && e.String() != "qb.SelectBadType/default" {
			fmt.Fprintf(os.Stderr, "%v: unexpected verdict %q\n", e, b.Err)
			unexpected++
		}
	}
	// what is processed alone is the reference, whatever it is, but then the whole runs are not those meant
	d.odd = unexpected > 0
	r.Add("events", len(d.events))
	r.Add("events_rejected", rejected)

	only := os.Getenv("VF_ONLY")
	section := func(name string, f func()) {
		if only == "" || strings.Contains(name, only) {
			t := time.Now()
			f()
			fmt.Fprintf(os.Stderr, "%s: %.1fs\n", name, time.Since(t).Seconds())
		}
	}
	r.Sample(map[string]any{"event": d.events[0].String(), "alone": d.st.Base[d.events[0].String()].Text})
	r.Sample(map[string]any{"history": d.describe(&job{Slots: d.events[3:6], Steps: seq(3)})})
	section("maps", d.maps)
	section("matrix", d.matrix)
	section("pairs", d.pairs)
	section("phases", func() { d.phases(plain) })
	section("triples", d.triples)
	section("files", d.files)
	section("catalog", d.catalog)
	if d.odd {
		r.Cap("runs: the verdicts on single declarations are not those expected")
	} else {
		section("runs", d.runs)
	}
	for k, v := range d.stats {
		r.Add(k, v)
	}
	r.Assumption("Histories run in copies of the packages under different import paths, so that records cached by type belong to one history; a fresh process gives the expected result.")
	r.Assumption("Map iteration is controlled by the start position the Go runtime draws; every position of maps of up to 8 entries and the stated number of positions of larger maps is taken, one for the whole run.")
	r.Finish()
}

func (d *driver) exports() {
	c := exec.Command("go", "list", "-export", "-deps", "-f", "{{.ImportPath}}\t{{.Export}}", "context", "net", "time", "github.com/frk/gosql", "github.com/frk/gosql/filter")
	c.Dir = os.Getenv("VERIF_REPO")
	c.Stderr = os.Stderr
	out, err := c.Output()
	if err != nil {
		d.r.Fatal("go list: %v", err)
	}
	d.st.Exports = map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if p, f, ok := strings.Cut(l, "\t"); ok && f != "" {
			d.st.Exports[p] = f
		}
	}
}

// process runs the jobs, in order, in one new process.
func (d *driver) process(jobs []*job) (out []reply) {
	c := exec.Command(d.exe)
	c.Env = append(os.Environ(), "VF_HIST_CHILD=1")
	c.Stderr = os.Stderr
	in, err := c.StdinPipe()
	if err != nil {
		d.r.Fatal("%v", err)
	}
	o, err := c.StdoutPipe()
	if err != nil {
		d.r.Fatal("%v", err)
	}
	if err := c.Start(); err != nil {
		d.r.Fatal("%v", err)
	}
	go func() {
		w := bufio.NewWriterSize(in, 1<<20)
		enc := json.NewEncoder(w)
		enc.Encode(d.st)
		for _, j := range jobs {
			if enc.Encode(j) != nil {
				break
			}
		}
		w.Flush()
		in.Close()
	}()
	dec := json.NewDecoder(bufio.NewReaderSize(o, 1<<20))
	for {
		var rep reply
		if err := dec.Decode(&rep); err == io.EOF {
			break
		} else if err != nil {
			d.r.Fatal("reading from a worker: %v", err)
		}
		out = append(out, rep)
	}
	if err := c.Wait(); err != nil {
		d.r.Fatal("worker: %v (after %d of %d histories)", err, len(out), len(jobs))
	}
	if len(out) != len(jobs) {
		d.r.Fatal("worker: %d of %d histories", len(out), len(jobs))
	}
	return out
}

// explore runs the histories on all workers.
func (d *driver) explore(section string, jobs []*job) {
	r := d.r
	for i, j := range jobs {
		j.ID = i
	}
	const chunk = 4000
	// each worker process takes every nworkers-th history of a chunk
	for from := 0; from < len(jobs); from += chunk * nworkers {
		if r.Expired(section) {
			return
		}
		part := jobs[from:min(len(jobs), from+chunk*nworkers)]
		var mu sync.Mutex
		vf.Par(nworkers, nworkers, func(_, w int) {
			var mine []*job
			for i := w; i < len(part); i += nworkers {
				mine = append(mine, part[i])
			}
			if len(mine) == 0 {
				return
			}
			reps := d.process(mine)
			mu.Lock()
			defer mu.Unlock()
			for i, rep := range reps {
				d.stats["histories"]++
				d.stats["histories_"+section]++
				d.stats["steps"] += rep.Steps
				for k, v := range rep.Stats {
					d.stats[k] += v
				}
				if rep.Bad == "" {
					continue
				}
				j := mine[i]
				if strings.HasPrefix(rep.Bad, "HARNESS") {
					r.Fatal("%s: %s", d.describe(j), rep.Bad)
				}
				r.Violation(section+"/"+d.describe(j), "history: %s\n%s", d.describe(j), rep.Bad)
			}
		})
	}
}

func (d *driver) describe(j *job) string {
	var s []string
	for _, e := range j.Slots {
		s = append(s, e.String())
	}
	t := strings.Join(s, ",") + ":" + j.Steps
	if j.Map != 0 {
		t += fmt.Sprintf(":map%d", j.Map-1)
	}
	return t
}

func seq(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "A%dC%dW%d", i, i, i)
	}
	return b.String()
}

// maps: every event under every start of map iterations.
func (d *driver) maps() {
	var jobs []*job
	for _, e := range d.events {
		for m := 0; m < d.r.Pick(32, 256); m++ {
			jobs = append(jobs, &job{Slots: []event{e}, Steps: "A0C0W0W0", Map: mapStart(m) + 1})
		}
	}
	d.explore("maps", jobs)
}

// pairs: every event after every other (and after itself), the code then written again.
func (d *driver) pairs() {
	var jobs []*job
	for _, a := range d.events {
		for _, b := range d.events {
			jobs = append(jobs, &job{Slots: []event{a, b}, Steps: seq(2) + "W1W0"})
		}
	}
	d.explore("pairs", jobs)
}

// phases: every interleaving of the phases of two events.
func (d *driver) phases(plain int) {
	var orders []string
	var rec func(s string, a, b int)
	rec = func(s string, a, b int) {
		if a == 3 && b == 3 {
			orders = append(orders, s)
			return
		}
		if a < 3 {
			rec(s+"ACW"[a:a+1]+"0", a+1, b)
		}
		if b < 3 {
			rec(s+"ACW"[b:b+1]+"1", a, b+1)
		}
	}
	rec("", 0, 0)
	es := d.events[:plain]
	if !d.r.Thorough() {
		es = d.coreEvents()
	}
	var jobs []*job
	for i, a := range es {
		for _, b := range es[i:] {
			for _, o := range orders {
				jobs = append(jobs, &job{Slots: []event{a, b}, Steps: o})
			}
		}
	}
	d.explore("phases", jobs)
}

func (d *driver) coreEvents() (out []event) {
	for _, n := range core {
		e, ok := d.byName[n]
		if !ok {
			d.r.Fatal("no declaration %s", n)
		}
		out = append(out, e)
	}
	for _, x := range []struct {
		n string
		c int
	}{{"qa.FilterUser", 1}, {"qa.FilterUser", 2}, {"qb.FilterImp", 1}, {"qa.FilterImpX", 3}, {"qa.FilterImpFields", 7}} {
		out = append(out, event{d.byName[x.n].Decl, x.c})
	}
	return
}

// triples: every sequence of three of the core events (thorough: two of them core, one any).
func (d *driver) triples() {
	var jobs []*job
	es := d.coreEvents()
	last := es
	if d.r.Thorough() {
		last = d.events
	}
	for _, a := range es {
		for _, b := range es {
			for _, c := range last {
				jobs = append(jobs, &job{Slots: []event{a, b, c}, Steps: seq(3)})
			}
		}
	}
	d.explore("triples", jobs)
}

// files: declarations of one package and configuration in one file, in every order.
func (d *driver) files() {
	var jobs []*job
	good := map[string][]event{}
	for _, e := range d.events {
		if d.st.Base[e.String()].Err == "" {
			k := fmt.Sprint(decls[e.Decl].pkg, e.Cfg)
			good[k] = append(good[k], e)
		}
	}
	for _, es := range good {
		for _, a := range es {
			for _, b := range es {
				jobs = append(jobs, &job{Slots: []event{a, b}, Steps: "A0C0A1C1J0W1J0"})
			}
		}
		// all of them, from every start, both ways; slots are numbered by one character
		for from := range es {
			for _, dir := range []int{1, len(es) - 1} {
				j := &job{}
				for k := 0; k < len(es); k++ {
					j.Slots = append(j.Slots, es[(from+k*dir)%len(es)])
					j.Steps += "A" + string(rune('0'+k)) + "C" + string(rune('0'+k))
				}
				j.Steps += "J0W0J0"
				jobs = append(jobs, j)
				for m := 0; m < d.r.Pick(2, 16); m++ {
					jm := *j
					jm.Map = mapStart(m*5) + 1
					jobs = append(jobs, &jm)
				}
			}
		}
	}
	inFile := d.coreEvents()
	for _, a := range inFile {
		for _, b := range inFile {
			for _, c := range inFile {
				if pk := decls[a.Decl].pkg; pk == decls[b.Decl].pkg && pk == decls[c.Decl].pkg && a.Cfg == b.Cfg && b.Cfg == c.Cfg {
					jobs = append(jobs, &job{Slots: []event{a, b, c}, Steps: "A0C0A1C1A2C2J0"})
				}
			}
		}
	}
	d.explore("files", jobs)
}

// catalog: pairs with a newly loaded catalog.
func (d *driver) catalog() {
	var jobs []*job
	es := d.coreEvents()
	if d.r.Thorough() {
		es = d.events
	}
	for i, a := range es {
		for k, b := range es {
			if !d.r.Thorough() && (i+k)%2 == 1 {
				continue
			}
			jobs = append(jobs, &job{Slots: []event{a, b}, Steps: seq(2), Fresh: true})
		}
	}
	d.explore("catalog", jobs)
}
