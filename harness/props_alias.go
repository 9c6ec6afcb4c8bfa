package main

import (
	"bytes"
	"fmt"
	"math"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C28", Quick: 120000, Thorough: 400000, Run: runC28,
		Rule: "a case is a random history of calls over a shared pool of matrices: arithmetic, layer passes, losses, metrics, decisions, encodings, optimizer updates, whole models being trained, evaluated and saved, and user writes to single matrices; after every call the bits of every matrix ever passed in or returned are re-read (a user write may change only its own matrix), and repeated pure calls must return the same bits; non-trivial when at least 10 matrices were being watched",
		Floors: map[string]int64{"large matrices": 3000, "calls": 300000, "matrices re-read": 8000000, "returned lists watched": 8000, "returned matrices watched": 250000, "user writes": 15000, "pure calls repeated": 20000, "call arithmetic": 40000, "call layer forward": 10000, "call layer backward": 8000, "call fused backward": 800, "call loss": 15000, "call metric": 10000, "call decision": 10000, "call one-hot": 3000, "call clip": 3000,
			"call update": 8000, "call fit": 4000, "call model forward": 4000, "call model backward": 4000, "call predict": 4000, "call model loss": 4000, "call model accuracy": 4000, "call save": 2000}})
}

// watched is a matrix some call received or returned, with the contents it must keep.
type watched struct {
	name string
	m    nn.Matrix
	want M
	user bool // free to be written by the user: nothing else may share it
}

// watchedList is a list of matrices some call returned.
type watchedList struct {
	name string
	ptrs func() []nn.Matrix // the list as it is now
	rows []*float64         // where its matrices were
	dims [][2]int
}

type pool struct {
	c    *Ctx
	w    []*watched
	ls   []*watchedList
	pure []pureCall
}

type pureCall struct {
	name string
	f    func() string
	want string
}

// add starts watching.
func (p *pool) add(name string, m nn.Matrix, user bool) nn.Matrix {
	p.w = append(p.w, &watched{name, m, fromNN(p.c, name, m), user})
	return m
}

// ret starts watching a returned matrix.
func (p *pool) ret(name string, m nn.Matrix) nn.Matrix {
	p.c.Cov("returned matrices watched", 1)
	return p.add("result of "+name, m, false)
}

// list starts watching a returned list.
func (p *pool) list(name string, now func() []nn.Matrix) {
	l := &watchedList{name: name, ptrs: now}
	for _, m := range now() {
		l.rows = append(l.rows, &m.M[0][0])
		l.dims = append(l.dims, [2]int{m.Rows, m.Cols})
	}
	if len(p.ls) > 20 {
		p.ls = p.ls[10:]
	}
	p.ls = append(p.ls, l)
	p.c.Cov("returned lists watched", 1)
}

// verify re-reads everything.
func (p *pool) verify(after string) {
	c := p.c
	for _, w := range p.w {
		if w.m.Rows != len(w.want) || len(w.m.M) != len(w.want) || !sameBits(w.m.M, w.want) {
			c.Fail("%s changed a matrix it must leave alone: %s, %dx%d", after, w.name, len(w.want), len(w.want[0]))
		}
	}
	for _, l := range p.ls {
		now := l.ptrs()
		if len(now) != len(l.rows) {
			c.Fail("%s changed a list it must leave alone: %s has %d matrices, had %d", after, l.name, len(now), len(l.rows))
		}
		for i, m := range now {
			if m.Rows != l.dims[i][0] || m.Cols != l.dims[i][1] || len(m.M) == 0 || len(m.M[0]) == 0 || &m.M[0][0] != l.rows[i] {
				c.Fail("%s changed a list it must leave alone: %s, matrix %d, is another matrix", after, l.name, i)
			}
		}
	}
	c.Cov("matrices re-read", len(p.w))
}

func (p *pool) done(kind, what string) {
	p.c.Cov("calls", 1)
	p.c.Cov("call "+kind, 1)
	p.verify(what)
}

// remember keeps a call whose result may depend on its arguments only.
func (p *pool) remember(name string, f func() string) {
	if len(p.pure) < 12 {
		p.pure = append(p.pure, pureCall{name, f, f()})
		p.verify(name + " (repeated)")
	}
}

func (p *pool) newM(rows, cols int) nn.Matrix {
	r := p.c.R
	// now and then reuse a matrix that is already being watched
	if r.Intn(2) == 0 {
		for k := 0; k < 6 && len(p.w) > 0; k++ {
			if w := p.w[r.Intn(len(p.w))]; w.m.Rows == rows && w.m.Cols == cols && allFinite(w.m.M) && maxAbs(w.m.M) < 50 {
				return w.m
			}
		}
	}
	return p.add(fmt.Sprintf("argument %dx%d", rows, cols), anyM(r, rows, cols), true)
}

// probs is a matrix of probabilities.
func (p *pool) probs(rows, cols int) nn.Matrix {
	r := p.c.R
	a := zeros(rows, cols)
	for i := range a {
		for j := range a[i] {
			a[i][j] = r.Float64()
			switch r.Intn(8) {
			case 0:
				a[i][j] = 0 // outside the clamping range
			case 1:
				a[i][j] = 1
			case 2:
				a[i][j] = 1e-9
			}
		}
	}
	return p.add("predictions", toNN(r, a), true)
}

func bs(m nn.Matrix) string { return fmt.Sprint(m.Rows, m.Cols) + bitString(m.M) }

func runC28(c *Ctx) {
	r := c.R
	p := &pool{c: c}
	// the objects of this history
	var rls []*RL
	var lays []Lay
	for i := 0; i < 1+r.Intn(3); i++ {
		in, out := square(r, smallSize(r, 5), smallSize(r, 5))
		l := genLayer(r, Kind(r.Intn(int(nKinds))), in, out, 0.8)
		rls, lays = append(rls, l), append(lays, l.build(c))
	}
	rm := genModel(r, genOpts{maxDepth: 3, maxW: 5, kinds: allKinds, lrLo: 1e-4, lrHi: 0.02})
	mod := rm.build(c)
	rows0 := smallSize(r, 6)
	mx := p.add("training inputs", toNN(r, genM(r, rows0, rm.in(), vNormal)), false)
	my := p.add("training targets", toNN(r, genTarget(r, rm.Loss, rows0, rm.out())), false)
	vx := p.add("validation inputs", toNN(r, genM(r, 3, rm.in(), vNormal)), false)
	vy := p.add("validation targets", toNN(r, genTarget(r, rm.Loss, 3, rm.out())), false)
	ocfg := genOpt(r, 1e-4, 0.1)
	opt := ocfg.build(c)
	oi, oo := square(r, smallSize(r, 4), smallSize(r, 4))
	OW, OB := anyM(r, oi, oo), anyM(r, 1, oo)
	c.Desc("%v %s %s", rls, rm, ocfg)
	must := func(what string, err error) {
		if err != nil {
			c.Fail("%s refused: %v", what, err)
		}
	}
	steps := 10 + r.Intn(30)
	large := r.Intn(40) == 0 // thousands of elements in one matrix
	if large {
		steps = 8 + r.Intn(10)
	}
	for s := 0; s < steps; s++ {
		if len(p.w) > 90 {
			p.w = append(p.w[:4:4], p.w[30:]...)
			p.pure = nil
		}
		if len(p.w) >= 10 {
			c.NT()
		}
		n, k := smallSize(r, 5), smallSize(r, 5)
		if large && r.Intn(3) == 0 {
			n, k = 20+r.Intn(25), 20+r.Intn(25)
			if r.Intn(6) == 0 {
				n, k = square(r, 1+r.Intn(3), 1000+r.Intn(4000))
			}
			c.Cov("large matrices", 1)
		}
		switch op := r.Intn(24); op {
		case 0, 1, 2: // arithmetic
			a, b := p.newM(n, k), p.newM(n, k)
			d := p.newM(k, smallSize(r, 5))
			x := pick(r, 0, 1, -1, 2, r.NormFloat64())
			call := r.Intn(11)
			name := fmt.Sprintf("arithmetic %d with %g on %dx%d", call, x, n, k)
			f := func() (o nn.Matrix) {
				var err error
				switch call {
				case 0:
					o, err = a.Add(b)
				case 1:
					o, err = a.Sub(b)
				case 2:
					o, err = a.Dot(d)
				case 3:
					o = a.T()
				case 4:
					o = a.Neg()
				case 5:
					o = a.AddScalar(x)
				case 6:
					o = a.MulScalar(x)
				case 7:
					o = a.PowScalar(2 + math.Abs(math.Trunc(x)))
				case 8:
					o = a.Sum(0)
				case 9:
					o = a.Sum(1)
				case 10:
					a.Equals(b)
					v, e := a.GetColumn(r.Intn(k))
					must("GetColumn", e)
					o, err = nn.NewMatrixFromSlice(M{v})
				}
				must(name, err)
				return o
			}
			o := f()
			p.w = append(p.w, &watched{"result of " + name, o, cloneM(o.M), true})
			c.Cov("returned matrices watched", 1)
			p.done("arithmetic", name)
		case 3, 4, 5: // a layer
			i := r.Intn(len(lays))
			l, x := rls[i], lays[i]
			in := p.newM(n, l.In)
			infer := r.Intn(2) == 0
			name := fmt.Sprintf("forward pass of %s", l)
			var o nn.Matrix
			var err error
			if infer {
				o, err = inferForward(x, in)
			} else {
				o, err = x.L.Forward(in)
			}
			must(name, err)
			p.ret(name, o)
			p.done("layer forward", name)
			if r.Intn(4) > 0 {
				d := p.newM(n, l.Out)
				name := fmt.Sprintf("backward pass of %s", l)
				var u, v, w nn.Matrix
				sm, ok := x.L.(*nn.SoftmaxLayer)
				if ok && r.Intn(2) == 0 {
					y := p.add("one-hot targets", toNN(r, genTarget(r, lCE, n, l.Out)), false)
					u, v, w, err = sm.BackwardCrossEntropy(in, y, o)
					name = "fused " + name
					must(name, err)
					p.done("fused backward", name)
				} else {
					u, v, w, err = x.L.Backward(in, d)
					must(name, err)
					p.done("layer backward", name)
				}
				p.ret(name+" (weights)", u)
				p.ret(name+" (biases)", v)
				p.ret(name+" (inputs)", w)
			}
			if l.K != kDropout {
				w := bs(*x.W()) + bs(*x.B())
				p.remember("forward pass", func() string {
					if w != bs(*x.W())+bs(*x.B()) {
						c.Fail("the passes of %s changed its parameters", l)
					}
					o, err := x.L.Forward(in)
					must("repeated forward pass", err)
					return bs(o)
				})
			}
		case 6, 7, 8: // a loss
			lk := LossK(r.Intn(int(nLoss)))
			loss := buildLoss(c, lk, k)
			var yh nn.Matrix
			if lk == lCE || lk == lBCE {
				yh = p.probs(n, k)
			} else {
				yh = p.newM(n, k)
			}
			y := p.add("targets", toNN(r, genTarget(r, lk, n, k)), false)
			name := lossNames[lk] + " loss"
			v, err := loss.Forward(yh, y)
			must(name, err)
			p.done("loss", name)
			g, err := loss.Backward(yh, y)
			must(name, err)
			p.ret("gradient of "+name, g)
			p.done("loss", "gradient of "+name)
			v2, err := loss.Forward(yh, y)
			must(name, err)
			if math.Float64bits(v) != math.Float64bits(v2) {
				c.Fail("%s is %v, and %v after its gradient was taken", name, v, v2)
			}
			p.remember(name, func() string {
				v, err := loss.Forward(yh, y)
				must(name, err)
				g, err := loss.Backward(yh, y)
				must(name, err)
				return fmt.Sprintf("%x", math.Float64bits(v)) + bs(g)
			})
		case 9, 10: // metrics
			yh := p.probs(n, k)
			y := p.add("targets", toNN(r, genTarget(r, []LossK{lCE, lBCE}[r.Intn(2)], n, k)), false)
			f := func() string {
				return fmt.Sprint(nn.RegressionAccuracy(yh, y, 0.3), nn.CategoricalAccuracy(yh, y), nn.BinaryCategoricalAccuracy(yh, y))
			}
			f()
			p.done("metric", "an accuracy metric")
			p.remember("the accuracy metrics", f)
		case 11, 12: // decisions
			yh := p.probs(n, k)
			p.ret("RowMax", nn.RowMax(yh))
			p.ret("OutputBinaryValues", nn.OutputBinaryValues(yh))
			p.done("decision", "a decision")
			p.remember("the decisions", func() string { return bs(nn.RowMax(yh)) + bs(nn.OutputBinaryValues(yh)) })
		case 13:
			lab := zeros(n, 1)
			for i := range lab {
				lab[i][0] = float64(r.Intn(k))
			}
			L := p.add("labels", toNN(r, lab), true)
			o, err := nn.SparseToOneHot(L, k)
			must("one-hot encoding", err)
			p.w = append(p.w, &watched{"one-hot encoding", o, cloneM(o.M), true})
			c.Cov("returned matrices watched", 1)
			p.done("one-hot", "one-hot encoding")
		case 14:
			yh := p.probs(n, k)
			p.ret("Clip", nn.Clip(yh))
			p.done("clip", "Clip")
		case 15, 16: // an optimizer
			dw, db := p.newM(oi, oo), p.newM(1, oo)
			must("update", opt.Update(&OW, &OB, dw, db))
			p.done("update", "an update by "+ocfg.String())
		case 17: // training
			batch := r.Intn(rows0 + 2)
			xv, yv := nnEmpty(), nnEmpty()
			if r.Intn(2) == 0 {
				xv, yv = vx, vy
			}
			must("training", mod.Fit(mx, my, 1+r.Intn(2), batch, xv, yv, r.Intn(3)))
			p.pure = nil // parameters changed
			p.done("fit", fmt.Sprintf("training %s with batches of %d", rm, batch))
		case 18: // model passes
			o, err := mod.Forward(mx, r.Intn(2) == 0)
			must("forward pass", err)
			for i := 1; i < len(o); i++ {
				p.ret(fmt.Sprintf("model forward pass, output %d", i), o[i])
			}
			p.list("the outputs of a forward pass of "+rm.String(), func() []nn.Matrix { return o })
			p.done("model forward", "forward pass of "+rm.String())
			g, err := mod.Backward(o, my)
			must("backward pass", err)
			for i := range g {
				p.ret("model backward pass (weights)", g[i].DWeights)
				p.ret("model backward pass (biases)", g[i].DBiases)
			}
			p.list("the gradients of "+rm.String(), func() (ms []nn.Matrix) {
				for _, g := range g {
					ms = append(ms, g.DWeights, g.DBiases)
				}
				return
			})
			p.done("model backward", "backward pass of "+rm.String())
		case 19:
			o, err := mod.Predict(mx)
			must("prediction", err)
			p.w = append(p.w, &watched{"a prediction", o, cloneM(o.M), true})
			c.Cov("returned matrices watched", 1)
			p.done("predict", "a prediction of "+rm.String())
			p.remember("prediction", func() string {
				o, err := mod.Predict(mx)
				must("prediction", err)
				return bs(o)
			})
		case 20:
			_, err := mod.CalculateLoss(mx, my)
			must("loss", err)
			p.done("model loss", "loss of "+rm.String())
			p.remember("model loss", func() string {
				v, err := mod.CalculateLoss(mx, my)
				must("loss", err)
				return fmt.Sprintf("%x", math.Float64bits(v))
			})
		case 21:
			_, err := mod.CalculateAccuracy(mx, my)
			must("accuracy", err)
			p.done("model accuracy", "accuracy of "+rm.String())
			p.remember("model accuracy", func() string {
				v, err := mod.CalculateAccuracy(mx, my)
				must("accuracy", err)
				return fmt.Sprint(v)
			})
		case 22:
			b := saveBuf(c, mod)
			p.done("save", "saving "+rm.String())
			lm, err := nn.LoadModel(bytes.NewBuffer(b))
			must("loading", err)
			if r.Intn(2) == 0 { // the copy is trained, the original must not notice
				w1, b1 := paramsOf(c, mod)
				must("training a loaded model", lm.Fit(vx, vy, 1, 0, nnEmpty(), nnEmpty(), 0))
				p.verify("training a loaded model")
				w2, b2 := paramsOf(c, mod)
				sameParams(c, "training a loaded copy of "+rm.String(), w1, b1, w2, b2)
			}
		case 23: // the user writes
			var us []*watched
			for _, w := range p.w {
				if w.user {
					us = append(us, w)
				}
			}
			if len(us) == 0 {
				continue
			}
			w := us[r.Intn(len(us))]
			shared := false // the same matrix is watched under two names
			for _, v := range p.w {
				if v != w && &v.m.M[0][0] == &w.m.M[0][0] {
					shared = true
				}
			}
			if shared {
				c.Fail("%s and another watched matrix share their contents: %s", w.name, dims(w.want))
			}
			i, j := r.Intn(w.m.Rows), r.Intn(w.m.Cols)
			v := r.NormFloat64()
			switch r.Intn(3) {
			case 0:
				must("Set", w.m.Set(i, j, v))
				w.want[i][j] = v
			case 1:
				row := genM(r, 1, w.m.Cols, vUniform)[0]
				must("SetRow", w.m.SetRow(i, row))
				copy(w.want[i], row)
			case 2:
				col := genM(r, 1, w.m.Rows, vUniform)[0]
				must("SetColumn", w.m.SetColumn(j, col))
				for q := range col {
					w.want[q][j] = col[q]
				}
			}
			p.pure = nil
			c.Cov("user writes", 1)
			p.verify("a write to " + w.name)
		}
		if len(p.pure) > 0 && r.Intn(3) == 0 {
			q := p.pure[r.Intn(len(p.pure))]
			if q.f() != q.want {
				c.Fail("%s gives another result for the same arguments after other calls", q.name)
			}
			p.verify(q.name + " (repeated)")
			c.Cov("pure calls repeated", 1)
		}
	}
}
