package main

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C26", Quick: 200000, Thorough: 600000, Run: runC26,
		Rule: "a case is a layer, a loss, an optimizer or a model driven through a random history of correct calls with calls of wrong shape in between, next to a twin that only sees the correct ones; every wrong call must return an error without a panic, leave the parameters bit for bit, and everything afterwards must agree bit for bit with the twin; non-trivial when wrong calls came after correct ones",
		Floors: map[string]int64{"wrong calls": 150000, "twin comparisons": 60000, "wrong layer forward": 8000, "wrong layer backward": 8000, "wrong fused backward": 1000, "backward without forward": 2000, "backward after other forward": 2000,
			"wrong loss": 8000, "wrong update": 8000, "update of other parameters": 1500, "wrong model forward": 3000, "wrong model loss": 3000, "wrong model accuracy": 3000, "wrong model predict": 1500, "wrong model backward": 4000, "wrong training data": 4000, "wrong validation data": 3000, "negative batch size": 1500}})
}

// refuse makes a call that must return an error.
func refuse(c *Ctx, kind, what string, f func() error) {
	err := func() (err error) {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(violation); ok {
					panic(p)
				}
				c.Fail("%s: panic instead of an error: %v", what, p)
			}
		}()
		return f()
	}()
	if err == nil {
		c.Fail("%s: accepted without an error", what)
	}
	c.Cov("wrong calls", 1)
	c.Cov(kind, 1)
}

// wrongDim draws a dimension other than n.
func wrongDim(r *rand.Rand, n int) int {
	for {
		k := n
		switch r.Intn(6) {
		case 0:
			k = n + 1
		case 1:
			k = n - 1
		case 2:
			k = 1
		case 3:
			k = 2 * n
		case 4:
			k = n / 2
		default:
			k = 1 + r.Intn(n+6)
		}
		if k >= 1 && k != n {
			return k
		}
	}
}

func anyM(r *rand.Rand, rows, cols int) nn.Matrix { return toNN(r, genM(r, rows, cols, vUniform)) }

// wrongCols has the given rows and another column count (or nothing at all).
func wrongCols(r *rand.Rand, rows, cols int) nn.Matrix {
	if r.Intn(12) == 0 {
		return nn.Matrix{}
	}
	return anyM(r, rows, wrongDim(r, cols))
}

func runC26(c *Ctx) {
	switch c.R.Intn(8) {
	case 0, 1:
		c26layer(c)
	case 2:
		c26loss(c)
	case 3, 4:
		c26opt(c)
	default:
		c26model(c)
	}
}

func sh(m nn.Matrix) string { return fmt.Sprintf("%dx%d", m.Rows, m.Cols) }

func c26layer(c *Ctx) {
	r := c.R
	in, out := square(r, smallSize(r, 7), smallSize(r, 7))
	l := genLayer(r, Kind(r.Intn(int(nKinds))), in, out, 0.8)
	l.Drop = 0
	a, b := l.build(c), l.build(c)
	c.Desc("%s", l)
	same := func(what string) {
		if !sameBits(a.W().M, b.W().M) || !sameBits(a.B().M, b.B().M) {
			c.Fail("%s: the layer's parameters changed", what)
		}
	}
	needs := l.K != kLinear
	rows := 0 // of the last forward pass
	type result func(x Lay) []nn.Matrix
	both := func(what string, f result) {
		p, q := f(a), f(b)
		for i := range p {
			if !sameBits(p[i].M, q[i].M) {
				c.Fail("%s: result %d differs from that of a layer that saw no wrong calls", what, i)
			}
		}
		c.Cov("twin comparisons", 1)
	}
	for s := 0; s < 4+r.Intn(12); s++ {
		what := fmt.Sprintf("step %d on %s", s, l)
		switch r.Intn(9) {
		case 0, 1: // a correct forward pass
			rows = smallSize(r, 6)
			x := genM(r, rows, l.In, vNormal)
			infer := r.Intn(2) == 0
			c.Desc("f%d", rows)
			both(what+": forward pass", func(y Lay) []nn.Matrix {
				f := y.L.Forward
				if d, ok := y.L.(*nn.DropoutLayer); ok && infer {
					f = d.ForwardNoDropout
				}
				o, err := f(toNN(r, x))
				if err != nil {
					c.Fail("%s: correct forward pass refused: %v", what, err)
				}
				return []nn.Matrix{o}
			})
		case 2: // a correct backward pass
			if rows == 0 {
				continue
			}
			x, d := genM(r, rows, l.In, vNormal), genM(r, rows, l.Out, vNormal)
			c.Desc("b")
			both(what+": backward pass", func(y Lay) []nn.Matrix {
				p, q, o, err := y.L.Backward(toNN(r, x), toNN(r, d))
				if err != nil {
					c.Fail("%s: correct backward pass refused: %v", what, err)
				}
				return []nn.Matrix{p, q, o}
			})
			c.NT()
		case 3, 4: // wrong forward
			x := wrongCols(r, smallSize(r, 6), l.In)
			refuse(c, "wrong layer forward", fmt.Sprintf("%s: forward pass of a %s matrix", what, sh(x)), func() error {
				if d, ok := a.L.(*nn.DropoutLayer); ok && r.Intn(2) == 0 {
					_, err := d.ForwardNoDropout(x)
					return err
				}
				_, err := a.L.Forward(x)
				return err
			})
		case 5, 6: // wrong backward
			n := rows
			if n == 0 {
				n = smallSize(r, 6)
			}
			x, d := anyM(r, n, l.In), anyM(r, n, l.Out)
			switch r.Intn(5) {
			case 0:
				x = wrongCols(r, n, l.In)
			case 1:
				d = wrongCols(r, n, l.Out)
			case 2:
				x = anyM(r, wrongDim(r, n), l.In)
			case 3:
				d = anyM(r, wrongDim(r, n), l.Out)
			case 4:
				x, d = wrongCols(r, n, l.In), wrongCols(r, n, l.Out)
			}
			refuse(c, "wrong layer backward", fmt.Sprintf("%s: backward pass of %s with gradients %s after a forward pass of %d rows", what, sh(x), sh(d), rows), func() error {
				_, _, _, err := a.L.Backward(x, d)
				return err
			})
		case 7: // backward without a matching forward
			if !needs {
				continue
			}
			n := smallSize(r, 6)
			if rows > 0 {
				n = wrongDim(r, rows)
				c.Cov("backward after other forward", 1)
			} else {
				c.Cov("backward without forward", 1)
			}
			x, d := anyM(r, n, l.In), anyM(r, n, l.Out)
			refuse(c, "wrong layer backward", fmt.Sprintf("%s: backward pass of %d rows after a forward pass of %d", what, n, rows), func() error {
				_, _, _, err := a.L.Backward(x, d)
				return err
			})
		case 8: // wrong fused backward
			sm, ok := a.L.(*nn.SoftmaxLayer)
			if !ok {
				continue
			}
			n := rows
			if n == 0 {
				n = smallSize(r, 6)
			}
			x, y, d := anyM(r, n, l.In), anyM(r, n, l.Out), anyM(r, n, l.Out)
			switch r.Intn(6) {
			case 0:
				x = wrongCols(r, n, l.In)
			case 1:
				y = wrongCols(r, n, l.Out)
			case 2:
				d = wrongCols(r, n, l.Out)
			case 3:
				x = anyM(r, wrongDim(r, n), l.In)
			case 4:
				y = anyM(r, wrongDim(r, n), l.Out)
			case 5:
				d = anyM(r, wrongDim(r, n), l.Out)
			}
			refuse(c, "wrong fused backward", fmt.Sprintf("%s: fused backward pass of %s, %s, %s", what, sh(x), sh(y), sh(d)), func() error {
				_, _, _, err := sm.BackwardCrossEntropy(x, y, d)
				return err
			})
		}
		same(what)
	}
}

func c26loss(c *Ctx) {
	r := c.R
	k := LossK(r.Intn(int(nLoss)))
	size := smallSize(r, 7)
	loss := buildLoss(c, k, size)
	twin := buildLoss(c, k, size)
	c.Desc("%s %d", lossNames[k], size)
	for s := 0; s < 4+r.Intn(8); s++ {
		n := smallSize(r, 6)
		p, y := toNN(r, genPred(r, k, n, size)), toNN(r, genTarget(r, k, n, size))
		if r.Intn(3) == 0 {
			f1, e1 := loss.Forward(p, y)
			f2, e2 := twin.Forward(p, y)
			g1, e3 := loss.Backward(p, y)
			g2, e4 := twin.Backward(p, y)
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
				c.Fail("%s of size %d refused matching matrices: %v %v", lossNames[k], size, e1, e3)
			}
			if math.Float64bits(f1) != math.Float64bits(f2) || !sameBits(g1.M, g2.M) {
				c.Fail("%s of size %d: results differ after wrong calls", lossNames[k], size)
			}
			c.Cov("twin comparisons", 1)
			continue
		}
		c.NT()
		switch r.Intn(5) {
		case 0:
			p = wrongCols(r, n, size)
		case 1:
			y = wrongCols(r, n, size)
		case 2: // both wrong, but equal
			w := wrongDim(r, size)
			p, y = anyM(r, n, w), anyM(r, n, w)
		case 3:
			p = toNN(r, genPred(r, k, wrongDim(r, n), size))
		case 4:
			y = toNN(r, genTarget(r, k, wrongDim(r, n), size))
		}
		what := fmt.Sprintf("%s of size %d on predictions %s and targets %s", lossNames[k], size, sh(p), sh(y))
		refuse(c, "wrong loss", "value of "+what, func() error { _, err := loss.Forward(p, y); return err })
		refuse(c, "wrong loss", "gradient of "+what, func() error { _, err := loss.Backward(p, y); return err })
	}
}

func c26opt(c *Ctx) {
	r := c.R
	cfg := genOpt(r, 1e-4, 0.5)
	a, b := cfg.build(c), cfg.build(c)
	in, out := square(r, smallSize(r, 6), smallSize(r, 6))
	w, bi := genM(r, in, out, vNormal), genM(r, 1, out, vNormal)
	wa, ba, wb, bb := toNN(r, w), toNN(r, bi), toNN(r, w), toNN(r, bi)
	c.Desc("%s %dx%d", cfg, in, out)
	steps := 0
	same := func(what string) {
		if !sameBits(wa.M, wb.M) || !sameBits(ba.M, bb.M) {
			c.Fail("%s: parameters differ from those of an optimizer that saw no wrong calls", what)
		}
		wantShape(c, what, wa, in, out)
		wantShape(c, what, ba, 1, out)
		c.Cov("twin comparisons", 1)
	}
	for s := 0; s < 4+r.Intn(12); s++ {
		what := fmt.Sprintf("step %d of %s on %dx%d", s, cfg, in, out)
		dw, db := genM(r, in, out, vNormal), genM(r, 1, out, vNormal)
		switch k := r.Intn(8); {
		case k < 3:
			e1 := a.Update(&wa, &ba, toNN(r, dw), toNN(r, db))
			e2 := b.Update(&wb, &bb, toNN(r, dw), toNN(r, db))
			if e1 != nil || e2 != nil {
				c.Fail("%s: matching gradients refused: %v %v", what, e1, e2)
			}
			steps++
			c.Desc("u")
		case k == 3 && steps > 0 && (cfg.K == oAdam || cfg.Mom != 0):
			// parameters of another layer
			i2, o2 := wrongDim(r, in), wrongDim(r, out)
			switch r.Intn(3) {
			case 0:
				i2 = in
			case 1:
				o2 = out
			}
			p, q := genM(r, i2, o2, vNormal), genM(r, 1, o2, vNormal)
			P, Q := toNN(r, p), toNN(r, q)
			refuse(c, "update of other parameters", fmt.Sprintf("%s: update of %dx%d parameters", what, i2, o2), func() error {
				return a.Update(&P, &Q, anyM(r, i2, o2), anyM(r, 1, o2))
			})
			if !sameBits(P.M, p) || !sameBits(Q.M, q) {
				c.Fail("%s: the refused update changed the parameters", what)
			}
			c.NT()
		default:
			W, B := toNN(r, dw), toNN(r, db)
			switch r.Intn(7) {
			case 0:
				W = wrongCols(r, in, out)
			case 1:
				W = anyM(r, wrongDim(r, in), out)
			case 2:
				B = wrongCols(r, 1, out)
			case 3:
				B = anyM(r, 1+smallSize(r, 4), out)
			case 4:
				W, B = wrongCols(r, in, out), wrongCols(r, 1, out)
			case 5:
				W = anyM(r, in+smallSize(r, 3), out+smallSize(r, 3)) // larger both ways
				if r.Intn(2) == 0 && in != out {
					W = anyM(r, out, in)
				}
			case 6:
				B = anyM(r, out+1, 1)
				if out > 1 && r.Intn(2) == 0 { // a column of the right length
					B = anyM(r, out, 1)
				}
			}
			refuse(c, "wrong update", fmt.Sprintf("%s: update with gradients %s and %s", what, sh(W), sh(B)), func() error {
				return a.Update(&wa, &ba, W, B)
			})
			if steps > 0 {
				c.NT()
			}
		}
		same(what)
	}
}

func c26model(c *Ctx) {
	r := c.R
	m := genModel(r, genOpts{maxDepth: 4, maxW: 6, kinds: allKinds})
	for _, l := range m.L {
		l.Drop = 0
	}
	a, b := m.build(c), m.build(c)
	c.Desc("%s", m)
	in, out, n := m.in(), m.out(), len(m.L)
	gen := func(rows int) (M, M) { return genM(r, rows, in, vUniform), genTarget(r, m.Loss, rows, out) }
	same := func(what string) {
		w1, b1 := paramsOf(c, a)
		w2, b2 := paramsOf(c, b)
		sameParams(c, what, w2, b2, w1, b1)
		c.Cov("twin comparisons", 1)
	}
	correct := 0
	for s := 0; s < 5+r.Intn(14); s++ {
		what := fmt.Sprintf("step %d on %s", s, m)
		rows := smallSize(r, 7)
		x, y := gen(rows)
		X, Y := toNN(r, x), toNN(r, y)
		wrongY := func() nn.Matrix {
			if r.Intn(2) == 0 {
				return wrongCols(r, rows, out)
			}
			return toNN(r, genTarget(r, m.Loss, wrongDim(r, rows), out))
		}
		switch r.Intn(12) {
		case 0, 1: // correct use
			correct++
			seed := r.Int63()
			use := func(mod *nn.Model, r *rand.Rand) (s string) {
				if r.Intn(2) == 0 {
					var xv, yv nn.Matrix
					if r.Intn(2) == 0 {
						xv, yv = toNN(r, x), toNN(r, y)
					}
					if err := mod.Fit(X, Y, 1+r.Intn(2), r.Intn(rows+2), xv, yv, r.Intn(2)); err != nil {
						c.Fail("%s: correct training refused: %v", what, err)
					}
				}
				o, err := mod.Forward(X, r.Intn(2) == 0)
				if err != nil {
					c.Fail("%s: correct forward pass refused: %v", what, err)
				}
				g, err := mod.Backward(o, Y)
				if err != nil {
					c.Fail("%s: correct backward pass refused: %v", what, err)
				}
				for i := range g {
					s += bitString(g[i].DWeights.M) + bitString(g[i].DBiases.M)
				}
				l, err := mod.CalculateLoss(X, Y)
				if err != nil {
					c.Fail("%s: correct loss refused: %v", what, err)
				}
				q, err := mod.CalculateAccuracy(X, Y)
				if err != nil {
					c.Fail("%s: correct accuracy refused: %v", what, err)
				}
				p, err := mod.Predict(X)
				if err != nil {
					c.Fail("%s: correct prediction refused: %v", what, err)
				}
				return s + fmt.Sprintf("%x %x ", math.Float64bits(l), math.Float64bits(q)) + bitString(p.M)
			}
			if use(a, rand.New(rand.NewSource(seed))) != use(b, rand.New(rand.NewSource(seed))) {
				c.Fail("%s: results differ from those of a model that saw no wrong calls", what)
			}
		case 2:
			bad := wrongCols(r, rows, in)
			refuse(c, "wrong model forward", fmt.Sprintf("%s: forward pass of %s", what, sh(bad)), func() error { _, err := a.Forward(bad, r.Intn(2) == 0); return err })
		case 3:
			bad := wrongCols(r, rows, in)
			refuse(c, "wrong model predict", fmt.Sprintf("%s: prediction on %s", what, sh(bad)), func() error { _, err := a.Predict(bad); return err })
		case 4, 5:
			bx, by := X, Y
			if r.Intn(3) == 0 {
				bx = wrongCols(r, rows, in)
			} else {
				by = wrongY()
			}
			refuse(c, "wrong model loss", fmt.Sprintf("%s: loss on %s and %s", what, sh(bx), sh(by)), func() error { _, err := a.CalculateLoss(bx, by); return err })
			refuse(c, "wrong model accuracy", fmt.Sprintf("%s: accuracy on %s and %s", what, sh(bx), sh(by)), func() error { _, err := a.CalculateAccuracy(bx, by); return err })
		case 6, 7:
			o, err := a.Forward(X, r.Intn(2) == 0)
			if err != nil {
				c.Fail("%s: correct forward pass refused: %v", what, err)
			}
			by := Y
			bad := append([]nn.Matrix{}, o...)
			desc := ""
			switch r.Intn(7) {
			case 0:
				bad = bad[:n]
				desc = "without the last output"
			case 1:
				bad = bad[1:]
				desc = "without the first output"
			case 2:
				bad = append(bad, o[n])
				desc = "with one output too many"
			case 3:
				bad = nil
				desc = "without outputs"
			case 4:
				by = wrongY()
				desc = "with targets " + sh(by)
			case 5:
				i := r.Intn(n + 1)
				bad[i] = anyM(r, wrongDim(r, rows), bad[i].Cols)
				desc = fmt.Sprintf("with output %d being %s", i, sh(bad[i]))
			case 6:
				i := r.Intn(n + 1)
				bad[i] = wrongCols(r, rows, bad[i].Cols)
				desc = fmt.Sprintf("with output %d being %s", i, sh(bad[i]))
			}
			refuse(c, "wrong model backward", fmt.Sprintf("%s: backward pass on %d rows %s", what, rows, desc), func() error { _, err := a.Backward(bad, by); return err })
		case 8: // outputs of an earlier pass of other size
			need := false
			for i, l := range m.L {
				if l.K != kLinear && !(i == n-1 && l.K == kSoftmax && m.Loss == lCE) {
					need = true
				}
			}
			if !need {
				continue
			}
			o, err := a.Forward(X, true)
			if err == nil {
				x2, _ := gen(wrongDim(r, rows))
				_, err = a.Forward(toNN(r, x2), r.Intn(2) == 0)
			}
			if err != nil {
				c.Fail("%s: correct forward pass refused: %v", what, err)
			}
			refuse(c, "wrong model backward", fmt.Sprintf("%s: backward pass on %d rows after a forward pass of another batch", what, rows), func() error { _, err := a.Backward(o, Y); return err })
		default:
			bx, by := X, Y
			xv, yv := nnEmpty(), nnEmpty()
			batch := r.Intn(rows + 2)
			kind := "wrong training data"
			useVal := func() {
				vr := smallSize(r, 5)
				p, q := gen(vr)
				xv, yv = toNN(r, p), toNN(r, q)
			}
			if r.Intn(3) == 0 {
				useVal()
			}
			switch r.Intn(8) {
			case 0:
				bx = wrongCols(r, rows, in)
			case 1, 2:
				by = wrongY()
			case 3:
				p, _ := gen(wrongDim(r, rows))
				bx = toNN(r, p)
			case 4:
				kind, batch = "negative batch size", []int{-1, -2, -rows, -rows - 1, math.MinInt32}[r.Intn(5)]
			case 5, 6:
				kind = "wrong validation data"
				useVal()
				k := yv.Rows
				switch r.Intn(4) {
				case 0:
					xv = wrongCols(r, k, in)
				case 1:
					yv = anyM(r, k, wrongDim(r, out))
				case 2:
					xv = anyM(r, wrongDim(r, k), in)
				case 3:
					_, q := gen(wrongDim(r, k))
					yv = toNN(r, q)
				}
			case 7:
				bx, by = wrongCols(r, rows, in), wrongCols(r, rows, out)
			}
			logEvery, epochs := r.Intn(3), r.Intn(4)
			refuse(c, kind, fmt.Sprintf("%s: training on %s and %s, batch size %d, validation on %s and %s, logging every %d", what, sh(bx), sh(by), batch, sh(xv), sh(yv), logEvery), func() error {
				return a.Fit(bx, by, epochs, batch, xv, yv, logEvery)
			})
		}
		if correct > 0 {
			c.NT()
		}
		same(what)
	}
}
