// Command drive replays behaviours generated by TLC from the specifications in
// /verif/specs into the real gosips code and compares, after every step, the
// observation the specification prescribes with what the code shows.
//
// Input: one JSON array of steps per line, step = {"op":..,"a":[..],"w":..}.
// "w" is the prescribed observation (computed by the specification, never here).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"
)

// Step is one transition of a specification behaviour.
type Step struct {
	Op string        `json:"op"`
	A  []interface{} `json:"a"`
	W  interface{}   `json:"w"`
}

// Machine interprets the steps of one specification on real objects.
type Machine interface {
	Do(op string, a Args) interface{}
}

var machines = map[string]func() Machine{}

// Mismatch is a step where the code did not show what the specification prescribes.
type Mismatch struct {
	Line int         `json:"line"`
	Step int         `json:"step"`
	Op   string      `json:"op"`
	Path string      `json:"path"`
	Want interface{} `json:"want"`
	Got  interface{} `json:"got"`
	Beh  []Step      `json:"behaviour"`
}

// Result is what one shard reports.
type Result struct {
	Behaviours int            `json:"behaviours"`
	Steps      int            `json:"steps"`
	Ops        map[string]int `json:"ops"`
	Mismatches []Mismatch     `json:"mismatches"`
	Count      int            `json:"mismatch_count"`
	Kinds      map[string]int `json:"kinds"`
	Sample     []interface{}  `json:"sample"`
}

func safeDo(m Machine, op string, a Args) (got interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(harnessError); ok {
				panic(h)
			}
			got = map[string]interface{}{"panic": fmt.Sprint(r), "stack": trimStack(string(debug.Stack()))}
		}
	}()
	return m.Do(op, a)
}

func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	var x interface{}
	if err = json.Unmarshal(b, &x); err != nil {
		panic(harnessError(err.Error()))
	}
	return x
}

func isPairs(l []interface{}) bool {
	for _, e := range l {
		p, ok := e.([]interface{})
		if !ok || len(p) != 2 {
			return false
		}
		if _, ok = p[0].(string); !ok {
			return false
		}
	}
	return true
}

func diff(path string, w, g interface{}) (string, interface{}, interface{}, bool) {
	switch wv := w.(type) {
	case map[string]interface{}:
		gv, ok := g.(map[string]interface{})
		if !ok {
			return path, w, g, true
		}
		if p, isP := gv["panic"]; isP {
			return path + "!panic", w, map[string]interface{}{"panic": p, "stack": gv["stack"]}, true
		}
		for _, k := range sortedKeys(wv) {
			if wv[k] == "*" {
				continue
			}
			x, has := gv[k]
			if !has {
				panic(harnessError("machine did not report field " + path + "." + k))
			}
			if p, a, b, d := diff(path+"."+k, wv[k], x); d {
				return p, a, b, d
			}
		}
		return "", nil, nil, false
	case []interface{}:
		if gm, isMap := g.(map[string]interface{}); isMap && gm["panic"] == nil && isPairs(wv) {
			for _, e := range wv { // fields given as a sequence of pairs
				p := e.([]interface{})
				k := p[0].(string)
				x, has := gm[k]
				if !has {
					panic(harnessError("machine did not report field " + path + "." + k))
				}
				if p[1] == "*" {
					continue
				}
				if pp, a, b, d := diff(path+"."+k, p[1], x); d {
					return pp, a, b, d
				}
			}
			return "", nil, nil, false
		}
		gv, ok := g.([]interface{})
		if !ok || len(gv) != len(wv) {
			return path, w, g, true
		}
		for i := range wv {
			if p, a, b, d := diff(fmt.Sprintf("%s[%d]", path, i), wv[i], gv[i]); d {
				return p, a, b, d
			}
		}
		return "", nil, nil, false
	}
	if gv, ok := g.(map[string]interface{}); ok {
		if _, isP := gv["panic"]; isP {
			return path + "!panic", w, g, true
		}
	}
	if w == nil && g == nil {
		return "", nil, nil, false
	}
	switch g.(type) {
	case map[string]interface{}, []interface{}:
		return path, w, g, true
	}
	if w != g {
		return path, w, g, true
	}
	return "", nil, nil, false
}

type task struct {
	line int
	beh  []Step
}

// replayOne replays one behaviour, to its end or the first step that does not show what is prescribed.
func replayOne(m Machine, line int, beh []Step) (int, *Mismatch) {
	for i, s := range beh {
		got := norm(safeDo(m, s.Op, Args(s.A)))
		if p, w, g, bad := diff("", s.W, got); bad {
			return i + 1, &Mismatch{line, i, s.Op, p, w, g, beh[:i+1]}
		}
	}
	return len(beh), nil
}

// replayTogether replays the behaviours by n callers at the same time, each with objects of its own. Each
// caller's behaviour is prescribed as if it were alone; a mismatch that is met alone too is no matter of the others.
func replayTogether(mk func() Machine, tasks []task, n int, started *int64, res *Result) (found []Mismatch) {
	var wg sync.WaitGroup
	var bad []Mismatch
	shown := make([][]interface{}, len(tasks)) // each caller only notes what it sees; it is compared when all are done
	start := make(chan struct{})
	for c := 0; c < n; c++ {
		wg.Add(1)
		go func(c int) {
			defer wg.Done()
			<-start
			for i := c; i < len(tasks); i += n {
				m := mk()
				for _, s := range tasks[i].beh {
					shown[i] = append(shown[i], safeDo(m, s.Op, Args(s.A)))
				}
			}
		}(c)
	}
	close(start)
	wg.Wait()
	for i, t := range tasks {
		for j, s := range t.beh {
			res.Steps++
			res.Ops[s.Op]++
			if p, w, g, d := diff("", s.W, norm(shown[i][j])); d {
				bad = append(bad, Mismatch{t.line, j, s.Op, p, w, g, t.beh[:j+1]})
				break
			}
		}
	}
	atomic.StoreInt64(started, time.Now().UnixNano())
	for _, mm := range bad {
		alone := false
		for _, t := range tasks {
			if t.line == mm.Line && !alone {
				_, m := replayOne(mk(), t.line, t.beh)
				alone = m != nil
			}
		}
		if !alone {
			found = append(found, mm)
		}
	}
	return found
}

func main() {
	machine := flag.String("machine", "", "interpreter")
	in := flag.String("in", "", "behaviours, one JSON array per line")
	shard := flag.Int("shard", 0, "this shard")
	shards := flag.Int("shards", 1, "number of shards")
	only := flag.Int("only", -1, "replay only this line")
	out := flag.String("out", "", "result file")
	progress := flag.String("progress", "", "file holding the line being replayed")
	limit := flag.Duration("limit", 20*time.Second, "time allowed for one behaviour")
	all := flag.Bool("all", false, "note every mismatch, not the first three of a kind")
	together := flag.Int("together", 0, "replay by so many callers at the same time; what is met alone as well is not reported")
	record := flag.Int("record", -1, "record a concurrent run (scenario number) instead of replaying")
	seed := flag.Int64("seed", 1, "seed of the recorded run")
	flag.Parse()
	if *record >= 0 {
		if err := recordRand(*seed, *record, *out); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	mk := machines[*machine]
	if mk == nil {
		fmt.Fprintln(os.Stderr, "unknown machine", *machine)
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	f, err := os.Open(*in)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var pf *os.File
	if *progress != "" {
		pf, err = os.Create(*progress)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	var current, started int64
	atomic.StoreInt64(&started, time.Now().UnixNano())
	go func() { // watchdog: a behaviour that does not end, or that eats memory
		var ms runtime.MemStats
		for {
			time.Sleep(100 * time.Millisecond)
			if time.Now().UnixNano()-atomic.LoadInt64(&started) > int64(*limit) {
				fmt.Fprintln(os.Stderr, "HANG line", atomic.LoadInt64(&current))
				os.Exit(7)
			}
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 1500<<20 {
				fmt.Fprintln(os.Stderr, "MEMORY line", atomic.LoadInt64(&current))
				os.Exit(7)
			}
		}
	}()
	res := Result{Ops: map[string]int{}, Kinds: map[string]int{}, Mismatches: []Mismatch{}, Sample: []interface{}{}}
	note := func(mm Mismatch) {
		res.Count++
		k := mm.Op + mm.Path
		res.Kinds[k]++
		if (res.Kinds[k] <= 3 || *all) && len(res.Mismatches) < 200 {
			res.Mismatches = append(res.Mismatches, mm)
		}
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	line := -1
	var pending []task
	for {
		text, err := rd.ReadBytes('\n')
		if len(text) == 0 && err != nil {
			break
		}
		line++
		if (*only < 0 && line%*shards != *shard) || (*only >= 0 && line != *only) {
			continue
		}
		var beh []Step
		if e := json.Unmarshal(text, &beh); e != nil {
			fmt.Fprintln(os.Stderr, "bad behaviour at line", line, e)
			os.Exit(2)
		}
		res.Behaviours++
		if len(res.Sample) < 2 {
			res.Sample = append(res.Sample, beh)
		}
		if *together > 0 {
			pending = append(pending, task{line, beh})
			continue
		}
		atomic.StoreInt64(&current, int64(line))
		atomic.StoreInt64(&started, time.Now().UnixNano())
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%12d", line)), 0)
		}
		steps, mm := replayOne(mk(), line, beh)
		for _, s := range beh[:steps] {
			res.Steps++
			res.Ops[s.Op]++
		}
		if mm != nil {
			note(*mm)
		}
	}
	if *together > 0 {
		for _, mm := range replayTogether(mk, pending, *together, &started, &res) {
			note(mm)
		}
	}
	b, err := json.Marshal(res)
	if err == nil {
		err = os.WriteFile(*out, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}
