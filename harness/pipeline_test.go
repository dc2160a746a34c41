package cli_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/Carbonfrost/joe-cli"
)

// A model of a pipeline: leaves are actions (possibly failing) or middleware (invoking next 0..2 times),
// inner nodes are pipelines.
type vfNode struct {
	id      int
	fail    bool
	mw      bool
	times   int
	swallow bool // the middleware ignores the error of next
	kids    []*vfNode
	pipe    bool
}

type vfTrace struct{ log []string }

func (n *vfNode) action(tr *vfTrace) cli.Action {
	err := error(nil)
	if n.fail {
		err = fmt.Errorf("e%d", n.id)
	}
	if n.mw {
		return vfMiddle{n, tr, err}
	}
	return vfAct(func() error {
		tr.log = append(tr.log, fmt.Sprint(n.id))
		return err
	})
}

type vfAct func() error

func (a vfAct) Execute(context.Context) error { return a() }

type vfMiddle struct {
	n   *vfNode
	tr  *vfTrace
	err error
}

func (m vfMiddle) Execute(c context.Context) error { return m.ExecuteWithNext(c, nil) }

func (m vfMiddle) ExecuteWithNext(c context.Context, next cli.Action) error {
	m.tr.log = append(m.tr.log, fmt.Sprintf("m%d", m.n.id))
	for i := 0; i < m.n.times; i++ {
		if next == nil {
			continue
		}
		if err := next.Execute(c); err != nil && !m.n.swallow {
			return err
		}
	}
	return m.err
}

func (n *vfNode) flat(out []*vfNode) []*vfNode {
	if !n.pipe {
		return append(out, n)
	}
	for _, k := range n.kids {
		out = k.flat(out)
	}
	return out
}

// run is the independent oracle: the flattened sequence, each middleware getting the rest.
func vfRunFlat(ns []*vfNode, log *[]string) error {
	if len(ns) == 0 {
		return nil
	}
	n := ns[0]
	var err error
	if n.fail {
		err = fmt.Errorf("e%d", n.id)
	}
	if n.mw {
		*log = append(*log, fmt.Sprintf("m%d", n.id))
		for i := 0; i < n.times; i++ {
			if e := vfRunFlat(ns[1:], log); e != nil && !n.swallow {
				return e
			}
		}
		return err
	}
	*log = append(*log, fmt.Sprint(n.id))
	if err != nil {
		return err
	}
	return vfRunFlat(ns[1:], log)
}

func (n *vfNode) String() string {
	if !n.pipe {
		s := fmt.Sprint(n.id)
		if n.mw {
			s = fmt.Sprintf("m%d*%d", n.id, n.times)
			if n.swallow {
				s += "~"
			}
		}
		if n.fail {
			s += "!"
		}
		return s
	}
	var ss []string
	for _, k := range n.kids {
		ss = append(ss, k.String())
	}
	return "(" + strings.Join(ss, " ") + ")"
}

func (n *vfNode) build(r *rand.Rand, tr *vfTrace, raw bool) cli.ActionPipeline {
	var out cli.ActionPipeline
	if !raw && r.Intn(2) == 0 {
		var xs []any
		for _, k := range n.kids {
			if k.pipe {
				xs = append(xs, k.build(r, tr, raw))
			} else {
				xs = append(xs, k.action(tr))
			}
		}
		return cli.Pipeline(xs...)
	}
	for _, k := range n.kids {
		if k.pipe {
			out = append(out, k.build(r, tr, raw))
		} else {
			out = append(out, k.action(tr))
		}
	}
	return out
}

func vfNodes(r *rand.Rand, next *int, depth int, mw bool, failing int) *vfNode {
	n := &vfNode{pipe: true}
	for i, c := 0, r.Intn(5); i < c; i++ {
		if depth > 0 && r.Intn(3) == 0 {
			n.kids = append(n.kids, vfNodes(r, next, depth-1, mw, failing))
			continue
		}
		*next++
		k := &vfNode{id: *next, fail: r.Intn(10) < failing}
		if mw && r.Intn(4) == 0 {
			k.mw, k.times, k.swallow = true, r.Intn(3), r.Intn(2) == 0
			k.fail = r.Intn(5) == 0
		}
		n.kids = append(n.kids, k)
	}
	return n
}

func vfErr(err error) string {
	if err == nil {
		return "ok"
	}
	return err.Error()
}

func TestVerifC11Order(t *testing.T) {
	v := vfNew(t, "pipeline order", "a (nested) pipeline behaves like its flattened sequence: in order, stopping at the first error")
	defer v.done()
	for i, n := 0, v.n(20000, 400000); i < n && !v.timeUp(); i++ {
		next := 0
		mw := v.r.Intn(2) == 0
		root := vfNodes(v.r, &next, 3, mw, v.r.Intn(3))
		tr := &vfTrace{}
		p := root.build(v.r, tr, !mw)
		if mw { // middleware gets the rest of the pipeline it is in, so flatten first
			p = cli.Pipeline(p)
		}
		do := v.r.Intn(2) == 0
		v.run(root.String(), func() (string, string) {
			var want []string
			werr := vfRunFlat(root.flat(nil), &want)
			// twice, since a pipeline can be run again
			for k := 0; k < 2; k++ {
				tr.log = nil
				var err error
				if do {
					err = cli.Do(context.Background(), p)
				} else {
					err = p.Execute(context.Background())
				}
				w, g := fmt.Sprint(want, vfErr(werr)), fmt.Sprint(tr.log, vfErr(err))
				if w != g {
					return w, g
				}
			}
			return "", ""
		})
	}
}

// Appending and combining: a history of pipelines made from each other; each keeps its own sequence.
func TestVerifC11Combine(t *testing.T) {
	v := vfNew(t, "pipeline combinations", "appending, prepending or combining gives exactly the two sequences and leaves every other pipeline as it was")
	defer v.done()
	type pipe struct {
		p   cli.ActionPipeline
		seq []string
	}
	for i, n := 0, v.n(8000, 200000); i < n && !v.timeUp(); i++ {
		tr := &vfTrace{}
		next := 0
		leaf := func() (cli.Action, string) {
			next++
			n := &vfNode{id: next}
			return n.action(tr), fmt.Sprint(next)
		}
		ps := []pipe{{}}
		var hist []string
		for k, c := 0, 1+v.r.Intn(8); k < c; k++ {
			a := v.r.Intn(len(ps))
			b := v.r.Intn(len(ps))
			var nw pipe
			switch v.r.Intn(6) {
			case 0:
				x, s := leaf()
				nw = pipe{ps[a].p.Append(x), append(append([]string{}, ps[a].seq...), s)}
				hist = append(hist, fmt.Sprintf("p%d=p%d.Append(%s)", len(ps), a, s))
			case 1:
				x, s := leaf()
				y, u := leaf()
				nw = pipe{ps[a].p.Prepend(x, y), append([]string{s, u}, ps[a].seq...)}
				hist = append(hist, fmt.Sprintf("p%d=p%d.Prepend(%s,%s)", len(ps), a, s, u))
			case 2:
				nw = pipe{cli.Pipeline(ps[a].p, ps[b].p), append(append([]string{}, ps[a].seq...), ps[b].seq...)}
				hist = append(hist, fmt.Sprintf("p%d=Pipeline(p%d,p%d)", len(ps), a, b))
			case 3:
				x, s := leaf()
				nw = pipe{cli.Pipeline(x, ps[a].p), append([]string{s}, ps[a].seq...)}
				hist = append(hist, fmt.Sprintf("p%d=Pipeline(%s,p%d)", len(ps), s, a))
			case 4:
				x, s := leaf()
				nw = pipe{cli.Pipeline(ps[a].p, x), append(append([]string{}, ps[a].seq...), s)}
				hist = append(hist, fmt.Sprintf("p%d=Pipeline(p%d,%s)", len(ps), a, s))
			case 5:
				x, s := leaf()
				nw = pipe{ps[a].p.Append(ps[b].p, x), append(append(append([]string{}, ps[a].seq...), ps[b].seq...), s)}
				hist = append(hist, fmt.Sprintf("p%d=p%d.Append(p%d,%s)", len(ps), a, b, s))
			}
			ps = append(ps, nw)
		}
		v.run(strings.Join(hist, "; "), func() (string, string) {
			for k, p := range ps {
				tr.log = nil
				err := p.p.Execute(context.Background())
				w, g := fmt.Sprint("p", k, p.seq, "ok"), fmt.Sprint("p", k, tr.log, vfErr(err))
				if strings.ReplaceAll(w, "[]", "") != strings.ReplaceAll(g, "[]", "") {
					return w, g
				}
			}
			return "", ""
		})
	}
}

// The same in a run of an application: Uses/Before/Action/After of pipelines with a failing member.
func TestVerifC11Run(t *testing.T) {
	v := vfNew(t, "pipelines of a command", "a command's action pipeline runs in order and stops at the first error, which the run returns")
	defer v.done()
	for i, n := 0, v.n(1500, 40000); i < n && !v.timeUp(); i++ {
		next := 0
		root := vfNodes(v.r, &next, 2, false, v.r.Intn(3))
		tr := &vfTrace{}
		p := root.build(v.r, tr, true)
		where := v.r.Intn(3)
		v.run(fmt.Sprintf("%s at %d", root, where), func() (string, string) {
			app := &cli.App{Name: "a", Stderr: nil}
			switch where {
			case 0:
				app.Before = p
			case 1:
				app.Action = p
			case 2:
				app.After = p
			}
			var want []string
			werr := vfRunFlat(root.flat(nil), &want)
			err := app.RunContext(context.Background(), []string{"a"})
			g := fmt.Sprint(tr.log, vfErr(err))
			w := fmt.Sprint(want, vfErr(werr))
			if werr != nil && err != nil && errors.Unwrap(err) != nil {
				g = fmt.Sprint(tr.log, vfErr(errors.Unwrap(err)))
			}
			return w, g
		})
	}
}
