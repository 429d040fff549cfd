package main

import (
	"fmt"
	"strings"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// lop is one operation of a concurrent object.
type lop struct {
	name string
	do   func() string
}

// linObj is one instance of the object under test: its operations by number and its final observable state.
type linObj struct {
	ops   []lop
	final func() string
}

type seqOutcome struct {
	order []int // thread numbers
	res   string
}

var seqCache = map[string][]seqOutcome{}

// linearizable runs the threads (lists of operation numbers) concurrently on a fresh instance and requires that the
// results and the final state are those of some sequential order that respects real time, as computed on fresh
// instances of the same code.
func linearizable(x *X, key string, threads [][]int, mk func(inst string) linObj) {
	vs.SetPoints(false)
	o := mk("conc")
	type rec struct{ inv, resp int }
	clock := 0
	recs := make([][]rec, len(threads))
	res := make([][]string, len(threads))
	done := 0
	vs.SetPoints(true)
	for t := range threads {
		t := t
		recs[t] = make([]rec, len(threads[t]))
		res[t] = make([]string, len(threads[t]))
		vs.GoN(fmt.Sprintf("T%d", t+1), func() {
			for k, op := range threads[t] {
				clock++
				recs[t][k].inv = clock
				x.ops++
				if x.w.Verbose {
					vs.Logf("T%d calls %s", t+1, o.ops[op].name)
				}
				res[t][k] = o.ops[op].do()
				clock++
				recs[t][k].resp = clock
				if x.w.Verbose {
					vs.Logf("T%d: %s returned %s", t+1, o.ops[op].name, oneLine(res[t][k]))
				}
			}
			done++
		})
	}
	vs.WaitFor("all calls to return", func() bool { return done == len(threads) })
	vs.SetPoints(false)
	got := outcomeText(res, o.final())
	x.State(H(got))
	k := x.sc.Name + "|" + key + fmt.Sprint(threads)
	seq, ok := seqCache[k]
	if !ok {
		seq = sequential(threads, mk)
		seqCache[k] = seq
	}
	for _, s := range seq {
		if s.res != got {
			continue
		}
		// Real-time order.
		pos := make([]int, len(threads))
		var flat []rec
		for _, t := range s.order {
			flat = append(flat, recs[t][pos[t]])
			pos[t]++
		}
		good := true
		for i := range flat {
			for j := i + 1; j < len(flat); j++ {
				if flat[j].resp < flat[i].inv {
					good = false
				}
			}
		}
		if good {
			return
		}
	}
	var sb strings.Builder
	for t := range threads {
		for k, op := range threads[t] {
			fmt.Fprintf(&sb, "\n  T%d %s [%d,%d] = %s", t+1, o.ops[op].name, recs[t][k].inv, recs[t][k].resp, res[t][k])
		}
	}
	x.Fail("not linearizable: no sequential order gives these results%s\nand this final state\n%s", sb.String(), o.final())
}

func oneLine(s string) string { return strings.ReplaceAll(s, "\n", " / ") }

func outcomeText(res [][]string, final string) string {
	var sb strings.Builder
	for _, r := range res {
		for _, s := range r {
			sb.WriteString(s)
			sb.WriteString("\x01")
		}
		sb.WriteString("\x02")
	}
	sb.WriteString(final)
	return sb.String()
}

var linInst int

func sequential(threads [][]int, mk func(inst string) linObj) []seqOutcome {
	var out []seqOutcome
	var order []int
	pos := make([]int, len(threads))
	total := 0
	for _, t := range threads {
		total += len(t)
	}
	var rec func()
	rec = func() {
		if len(order) == total {
			linInst++
			o := mk(fmt.Sprintf("seq%d", linInst))
			res := make([][]string, len(threads))
			p := make([]int, len(threads))
			for _, t := range order {
				res[t] = append(res[t], o.ops[threads[t][p[t]]].do())
				p[t]++
			}
			out = append(out, seqOutcome{append([]int{}, order...), outcomeText(res, o.final())})
			return
		}
		for t := range threads {
			if pos[t] < len(threads[t]) {
				pos[t]++
				order = append(order, t)
				rec()
				order = order[:len(order)-1]
				pos[t]--
			}
		}
	}
	rec()
	return out
}
