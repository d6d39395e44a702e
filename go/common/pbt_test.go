// Package vft: a small property-based testing engine (the module's Go version and
// dependency list are fixed, so no library can be used). A property is a function from a
// sized random generator to a Case; a failing case is named by (test, label, index, size) and
// is shrunk by searching smaller sizes first.
package vft

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	vftrace "runtime/debug"
	"sort"
	"strings"
	"testing"
	"time"
)

type G struct {
	*rand.Rand
	Size  int
	case_ *Case
}

func (g *G) Chance(n, d int) bool { return g.Intn(d) < n }
func (g *G) Upto(n int) int {
	if n <= 0 {
		return 0
	}
	return g.Intn(n + 1)
}
func Pick[T any](g *G, xs ...T) T { return xs[g.Intn(len(xs))] }

type Case struct {
	Class      string
	Key        string
	Nontrivial bool
	Sample     string
	Fail       string
	Inc        bool
}

func (c *Case) Failf(f string, a ...any) {
	if c.Fail == "" {
		c.Fail = fmt.Sprintf(f, a...)
	}
}

type prop struct {
	name    string
	maxSize int
	body    func(g *G, c *Case)
}

var props []prop

func Register(name string, maxSize int, body func(g *G, c *Case)) {
	props = append(props, prop{name, maxSize, body})
}

type id struct {
	Test  string `json:"test"`
	Seed  int64  `json:"seed"`
	Label string `json:"label"`
	Index int    `json:"index"`
	Size  int    `json:"size"`
}

type config struct {
	Seed     int64    `json:"seed"`
	Tests    []string `json:"tests"`
	Count    int      `json:"count"`
	Cap      float64  `json:"cap"`
	Out      string   `json:"out"`
	Progress string   `json:"progress"`
	Shard    int      `json:"shard"`
	Shards   int      `json:"shards"`
	Replay   *id      `json:"replay"`
	Slow     int      `json:"slow"`
}

type failure struct {
	id
	What string `json:"what"`
}

type output struct {
	Evaluations  int            `json:"evaluations"`
	Nontrivial   []uint64       `json:"nontrivial"`
	Classes      map[string]int `json:"classes"`
	Samples      []string       `json:"samples"`
	Inconclusive int            `json:"inconclusive"`
	Fails        []failure      `json:"fails"`
	Done         bool           `json:"done"`
}

func seedOf(i id) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%d|%s|%d|%d", i.Test, i.Seed, i.Label, i.Index, i.Size)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

func runCase(p prop, i id) (c Case) {
	c = Case{Class: p.name}
	g := &G{Rand: rand.New(rand.NewSource(seedOf(i))), Size: i.Size}
	defer func() {
		if r := recover(); r != nil {
			lines := strings.Split(string(vftrace.Stack()), "\n")
			at := []string{}
			for _, l := range lines {
				if strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "debug/stack") && !strings.Contains(l, "pbt_test") {
					at = append(at, strings.TrimSpace(l))
				}
			}
			if len(at) > 4 {
				at = at[:4]
			}
			c.Failf("panic: %v at %s", r, strings.Join(at, " < "))
		}
	}()
	p.body(g, &c)
	return c
}

func TestProperties(t *testing.T) {
	data, err := os.ReadFile(os.Getenv("VF_CFG"))
	if err != nil {
		t.Fatal(err)
	}
	var cfg config
	if err := json.Unmarshal(data, &cfg); err != nil {
		t.Fatal(err)
	}
	prog, err := os.Create(cfg.Progress)
	if err != nil {
		t.Fatal(err)
	}
	note := func(i id) {
		b, _ := json.Marshal(i)
		s := fmt.Sprintf("%-300s", b)
		prog.WriteAt([]byte(s), 0)
	}
	sort.Slice(props, func(i, j int) bool { return props[i].name < props[j].name })
	out := output{Classes: map[string]int{}}
	write := func() {
		b, _ := json.Marshal(out)
		os.WriteFile(cfg.Out+".tmp", b, 0644)
		os.Rename(cfg.Out+".tmp", cfg.Out)
	}
	selected := []prop{}
	for _, p := range props {
		if len(cfg.Tests) == 0 {
			selected = append(selected, p)
		}
		for _, n := range cfg.Tests {
			if n == p.name {
				selected = append(selected, p)
			}
		}
	}
	if len(selected) == 0 {
		t.Fatal("no property selected")
	}
	if cfg.Replay != nil {
		for _, p := range props {
			if p.name == cfg.Replay.Test {
				note(*cfg.Replay)
				c := runCase(p, *cfg.Replay)
				out.Evaluations = 1
				if c.Fail != "" {
					out.Fails = append(out.Fails, failure{*cfg.Replay, c.Fail})
				}
				out.Samples = append(out.Samples, c.Sample)
			}
		}
		out.Done = true
		write()
		return
	}
	start := time.Now()
	seen := map[uint64]bool{}
	failed := map[string]bool{}
	perClass := map[string]int{}
	for n := cfg.Shard; n < cfg.Count; n += cfg.Shards {
		if time.Since(start).Seconds() > cfg.Cap {
			break
		}
		for _, p := range selected {
			if failed[p.name] {
				continue
			}
			i := id{p.name, cfg.Seed, "case", n, 1 + (n/cfg.Shards)%p.maxSize}
			note(i)
			c := runCase(p, i)
			out.Evaluations++
			out.Classes[c.Class]++
			if c.Inc {
				out.Inconclusive++
			}
			if c.Nontrivial {
				h := fnv.New64a()
				h.Write([]byte(p.name + c.Key))
				seen[h.Sum64()] = true
				perClass[c.Class]++
				k := perClass[c.Class]
				if len(out.Samples) < 40 && (k == 1 || k == 7 || k == 60) {
					s := c.Sample
					if len(s) > 600 {
						s = s[:600] + "..."
					}
					out.Samples = append(out.Samples, c.Class+": "+s)
				}
			}
			if c.Fail != "" {
				failed[p.name] = true
				best, what := i, c.Fail
				dl := time.Now().Add(8 * time.Second)
			shrink:
				for s := 1; s < i.Size; s++ {
					for j := 0; j < 400 && time.Now().Before(dl); j++ {
						k := id{p.name, cfg.Seed, "shrink", j, s}
						note(k)
						if cc := runCase(p, k); cc.Fail != "" {
							best, what = k, cc.Fail
							break shrink
						}
					}
				}
				out.Fails = append(out.Fails, failure{best, what})
			}
		}
	}
	for h := range seen {
		out.Nontrivial = append(out.Nontrivial, h)
	}
	out.Done = true
	write()
}
