package vf

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// Code under test that crashes in a way which cannot be recovered (a panic in a goroutine of its own, a
// stack overflow), or that never returns, must not take the verdict with it.

var reFrame = regexp.MustCompile(`(?m)^(\S.*)\n\t(\S+\.go):\d+`)

// culprit is the innermost frame of the goroutine trace that is neither of the standard library nor of another
// module, provided that it is code under test: the function and its arguments, and the file.
func culprit(trace string) (fn, file string) {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	work := os.Getenv("VERIF_WORK")
	for _, m := range reFrame.FindAllStringSubmatch(trace, -1) {
		f := m[2]
		switch {
		case strings.Contains(f, "/vfdrv/"), strings.HasPrefix(f, "vfx/"):
			return "", ""
		case strings.HasPrefix(f, repo+"/"):
			return m[1], f
		case work != "" && strings.HasPrefix(f, work+"/"):
			if strings.HasSuffix(f, "_gosql.go") {
				return m[1], f
			}
			return "", ""
		}
	}
	return "", ""
}

// CrashSite finds in what a Go program printed when it died the function under test in which it did, if any.
func CrashSite(out string) (what, fn string) {
	i := strings.Index(out, "\npanic: ")
	if strings.HasPrefix(out, "panic: ") {
		i = 0
	}
	if i < 0 {
		i = strings.Index(out, "fatal error: ")
	}
	if i < 0 {
		return "", ""
	}
	out = strings.TrimLeft(out[i:], "\n")
	what, _, _ = strings.Cut(out, "\n")
	j := strings.Index(out, "\ngoroutine ")
	if j < 0 {
		return what, ""
	}
	g, _, _ := strings.Cut(strings.TrimLeft(out[j:], "\n"), "\n\n")
	fn, _ = culprit(g)
	return what, fn
}

// crashed reports what the driver printed before it died.
func (r *Run) crashed(file string) {
	b, _ := os.ReadFile(file)
	what, fn := CrashSite(string(b))
	if fn == "" {
		os.Exit(2)
	}
	name, _, _ := strings.Cut(fn, "(0x")
	name = strings.TrimSuffix(name, "(...)")
	r.Violation("crash/"+name, "%s in %s\n%s", what, name, clipTail(string(b), 6000))
	r.Cap("the check was ended by a crash")
	r.Finish()
}

func clipTail(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// watch ends the check with a violation if, long after the deadline or with memory running out, a
// goroutine is in the same call of a function under test for at least 20 seconds.
func (r *Run) watch() {
	const huge = 14 << 30
	late := 300 * time.Second
	if n, err := strconv.Atoi(os.Getenv("VERIF_STUCK_S")); err == nil {
		late = time.Duration(n) * time.Second
	}
	for {
		time.Sleep(3 * time.Second)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		n, step := 0, 5*time.Second
		switch {
		case ms.HeapAlloc > huge:
			n, step = 4, 500*time.Millisecond
		case time.Since(r.deadline) > late:
			n = 5
		default:
			continue
		}
		var stuck map[string]string
		for k := 0; k < n; k++ {
			s := stuckCalls()
			if stuck == nil {
				stuck = s
			}
			for c := range stuck {
				if s[c] == "" {
					delete(stuck, c)
				}
			}
			time.Sleep(step)
		}
		for c, tr := range stuck {
			name, _, _ := strings.Cut(c[strings.Index(c, " ")+1:], "(0x")
			r.Violation("stuck/"+name, "%s does not return\n%s", name, clipTail(tr, 4000))
		}
		if len(stuck) > 0 {
			r.Cap("the check was ended by a call that does not return")
			r.Finish()
		}
		time.Sleep(30 * time.Second)
	}
}

var reGo = regexp.MustCompile(`^goroutine (\d+) \[(running|runnable)`)

// stuckCalls is the outermost call into code under test of every goroutine that is running now.
func stuckCalls() map[string]string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	out := map[string]string{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		m := reGo.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		if fn, _ := culprit(g); fn == "" {
			continue
		}
		fs := reFrame.FindAllStringSubmatch(g, -1)
		for i := len(fs) - 1; i >= 0; i-- {
			if fn, _ := culprit(fs[i][0]); fn != "" {
				out[fmt.Sprintf("%s %s", m[1], fn)] = g
				break
			}
		}
	}
	return out
}
