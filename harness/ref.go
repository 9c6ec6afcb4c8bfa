package main

// Independent reference implementation: plain formulas, no code shared with the
// library.

import (
	"fmt"
	"math"
	"math/rand"

	"github.com/cubeflix/nn"
)

type Kind int

const (
	kHidden Kind = iota
	kLinear
	kSigmoid
	kLeaky
	kSoftmax
	kDropout
	nKinds
)

var kindNames = []string{"relu", "linear", "sigmoid", "leaky", "softmax", "dropout"}

// RL is a reference layer.
type RL struct {
	K       Kind
	In, Out int
	W       M // In x Out
	B       []float64
	Slope   float64
	Drop    float64
}

func (l *RL) String() string {
	s := fmt.Sprintf("%s(%d,%d", kindNames[l.K], l.In, l.Out)
	if l.K == kLeaky {
		s += fmt.Sprintf(",slope=%g", l.Slope)
	}
	if l.K == kDropout {
		s += fmt.Sprintf(",rate=%g", l.Drop)
	}
	return s + ")"
}

func (l *RL) clone() *RL {
	n := *l
	n.W = cloneM(l.W)
	n.B = append([]float64(nil), l.B...)
	return &n
}

func genSlope(r *rand.Rand) float64 {
	return pick(r, 0, 0.01, 0.1, 0.5, 1, 1.5, 3, r.Float64())
}

func genDrop(r *rand.Rand) float64 {
	return pick(r, 0, 0.1, 0.25, 0.5, 0.75, 0.9, r.Float64())
}

func genLayer(r *rand.Rand, k Kind, in, out int, scale float64) *RL {
	l := &RL{K: k, In: in, Out: out, W: genScaled(r, in, out, scale), B: make([]float64, out)}
	for j := range l.B {
		l.B[j] = r.NormFloat64() * (0.1 + 0.3*scale)
	}
	if k == kLeaky {
		l.Slope = genSlope(r)
	}
	if k == kDropout {
		l.Drop = genDrop(r)
	}
	return l
}

// Lay is a library layer together with access to its exported parts.
type Lay struct {
	L nn.Layer
	W func() *nn.Matrix
	B func() *nn.Matrix
}

// build makes the library layer described by l through its constructor.
func (l *RL) build(c *Ctx) Lay {
	var out Lay
	var err error
	switch l.K {
	case kHidden:
		x, e := nn.NewLayer(l.In, l.Out)
		err = e
		out = Lay{&x, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }}
	case kLinear:
		x, e := nn.NewLinearLayer(l.In, l.Out)
		err = e
		out = Lay{&x, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }}
	case kSigmoid:
		x, e := nn.NewSigmoidLayer(l.In, l.Out)
		err = e
		out = Lay{&x, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }}
	case kLeaky:
		x, e := nn.NewLeakyLayer(l.In, l.Out, l.Slope)
		err = e
		out = Lay{&x, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }}
	case kSoftmax:
		x, e := nn.NewSoftmaxLayer(l.In, l.Out)
		err = e
		out = Lay{&x, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }}
	case kDropout:
		x, e := nn.NewDropoutLayer(l.In, l.Out, l.Drop)
		err = e
		out = Lay{&x, func() *nn.Matrix { return x.Weights }, func() *nn.Matrix { return x.Biases }}
	}
	if err != nil {
		c.Fail("constructor refused valid layer %s: %v", l, err)
	}
	l.load(c, out)
	return out
}

// load writes the reference's parameters into the library layer.
func (l *RL) load(c *Ctx, x Lay) {
	w, b := x.W(), x.B()
	wantShape(c, "weights of new layer", *w, l.In, l.Out)
	wantShape(c, "biases of new layer", *b, 1, l.Out)
	for i := range l.W {
		copy(w.M[i], l.W[i])
	}
	copy(b.M[0], l.B)
}

// layOf gives access to the parts of an existing library layer.
func layOf(x nn.Layer) (Lay, Kind) {
	switch l := x.(type) {
	case *nn.HiddenLayer:
		return Lay{l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }}, kHidden
	case *nn.LinearLayer:
		return Lay{l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }}, kLinear
	case *nn.SigmoidLayer:
		return Lay{l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }}, kSigmoid
	case *nn.LeakyLayer:
		return Lay{l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }}, kLeaky
	case *nn.SoftmaxLayer:
		return Lay{l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }}, kSoftmax
	case *nn.DropoutLayer:
		return Lay{l, func() *nn.Matrix { return l.Weights }, func() *nn.Matrix { return l.Biases }}, kDropout
	}
	return Lay{}, -1
}

func rdot(a, b M) M {
	o := zeros(len(a), len(b[0]))
	for i := range a {
		for k, x := range a[i] {
			for j, y := range b[k] {
				o[i][j] += x * y
			}
		}
	}
	return o
}

func rT(a M) M {
	o := zeros(len(a[0]), len(a))
	for i := range a {
		for j := range a[i] {
			o[j][i] = a[i][j]
		}
	}
	return o
}

// pre returns X*W+b and the magnitude sums |X||W|+|b| that bound its rounding error.
func (l *RL) pre(x M) (z, mag M) {
	z, mag = zeros(len(x), l.Out), zeros(len(x), l.Out)
	for i := range x {
		for k := 0; k < l.In; k++ {
			for j := 0; j < l.Out; j++ {
				p := x[i][k] * l.W[k][j]
				z[i][j] += p
				mag[i][j] += math.Abs(p)
			}
		}
		for j := 0; j < l.Out; j++ {
			z[i][j] += l.B[j]
			mag[i][j] += math.Abs(l.B[j])
		}
	}
	return
}

func rsoftmaxRow(z []float64) []float64 {
	mx := math.Inf(-1)
	for _, v := range z {
		mx = math.Max(mx, v)
	}
	s := 0.0
	o := make([]float64, len(z))
	for i, v := range z {
		o[i] = math.Exp(v - mx)
		s += o[i]
	}
	for i := range o {
		o[i] /= s
	}
	return o
}

func (l *RL) act(z M) M {
	o := cloneM(z)
	for i := range z {
		if l.K == kSoftmax {
			o[i] = rsoftmaxRow(z[i])
			continue
		}
		for j, v := range z[i] {
			switch l.K {
			case kHidden, kDropout:
				if v < 0 {
					o[i][j] = 0
				}
			case kSigmoid:
				o[i][j] = 1 / (1 + math.Exp(-v))
			case kLeaky:
				if v < 0 {
					o[i][j] = v * l.Slope
				}
			}
		}
	}
	return o
}

// lip is the Lipschitz constant of the activation.
func (l *RL) lip() float64 {
	if l.K == kLeaky {
		return math.Max(1, l.Slope)
	}
	return 1
}

func (l *RL) forward(x M) M { z, _ := l.pre(x); return l.act(z) }

// dact maps the gradient of the outputs to the gradient of the pre-activations.
func (l *RL) dact(z, o, d M) M {
	g := cloneM(d)
	for i := range z {
		if l.K == kSoftmax {
			s := 0.0
			for j := range d[i] {
				s += d[i][j] * o[i][j]
			}
			for j := range d[i] {
				g[i][j] = o[i][j] * (d[i][j] - s)
			}
			continue
		}
		for j, v := range z[i] {
			switch l.K {
			case kHidden, kDropout:
				if v <= 0 {
					g[i][j] = 0
				}
			case kSigmoid:
				// s(1-s) computed without cancellation
				e := math.Exp(-math.Abs(v))
				g[i][j] = d[i][j] * e / ((1 + e) * (1 + e))
			case kLeaky:
				if v < 0 {
					g[i][j] = d[i][j] * l.Slope
				}
			}
		}
	}
	return g
}

func colSum(a M) []float64 {
	s := make([]float64, len(a[0]))
	for i := range a {
		for j := range a[i] {
			s[j] += a[i][j]
		}
	}
	return s
}

// backward from the gradient of the pre-activations.
func (l *RL) backPre(x, dz M) (dW M, dB []float64, dX M) {
	return rdot(rT(x), dz), colSum(dz), rdot(dz, rT(l.W))
}

// nearKink: some pre-activation is so close to a kink that rounding decides.
func (l *RL) nearKink(z, mag M) bool {
	if l.K != kHidden && l.K != kLeaky && l.K != kDropout {
		return false
	}
	for i := range z {
		for j := range z[i] {
			if math.Abs(z[i][j]) <= 1e-9*mag[i][j]+1e-300 {
				return true
			}
		}
	}
	return false
}

// ---- losses ----

type LossK int

const (
	lMSE LossK = iota
	lMAE
	lCE
	lBCE
	nLoss
)

var lossNames = []string{"mse", "mae", "ce", "bce"}

const clipE = 1e-7

func clampP(p float64) float64 {
	if p < clipE {
		return clipE
	}
	if p > 1-clipE {
		return 1 - clipE
	}
	return p
}

func rloss(k LossK, p, y M) float64 {
	n, m := float64(len(p)), float64(len(p[0]))
	s := 0.0
	for i := range p {
		q := 0.0
		for j := range p[i] {
			d := p[i][j] - y[i][j]
			switch k {
			case lMSE:
				s += d * d / m / n
			case lMAE:
				s += math.Abs(d) / m / n
			case lCE:
				q += clampP(p[i][j]) * y[i][j]
			case lBCE:
				c := clampP(p[i][j])
				s -= (y[i][j]*math.Log(c) + (1-y[i][j])*math.Log(1-c)) / m / n
			}
		}
		if k == lCE {
			s -= math.Log(q) / n
		}
	}
	return s
}

func rlossGrad(k LossK, p, y M) M {
	n, m := float64(len(p)), float64(len(p[0]))
	g := zeros(len(p), len(p[0]))
	for i := range p {
		for j := range p[i] {
			d := p[i][j] - y[i][j]
			switch k {
			case lMSE:
				g[i][j] = 2 * d / m / n
			case lMAE:
				if d > 0 {
					g[i][j] = 1 / m / n
				} else if d < 0 {
					g[i][j] = -1 / m / n
				}
			case lCE:
				g[i][j] = -y[i][j] / clampP(p[i][j]) / n
			case lBCE:
				c := clampP(p[i][j])
				g[i][j] = ((1-y[i][j])/(1-c) - y[i][j]/c) / m / n
			}
		}
	}
	return g
}

func buildLoss(c *Ctx, k LossK, size int) nn.Loss {
	var err error
	var l nn.Loss
	switch k {
	case lMSE:
		x, e := nn.NewMeanSquaredLoss(size)
		l, err = &x, e
	case lMAE:
		x, e := nn.NewMeanAbsoluteLoss(size)
		l, err = &x, e
	case lCE:
		x, e := nn.NewCrossEntropyLoss(size)
		l, err = &x, e
	case lBCE:
		x, e := nn.NewBinaryCrossEntropyLoss(size)
		l, err = &x, e
	}
	if err != nil {
		c.Fail("loss constructor refused size %d: %v", size, err)
	}
	return l
}

// genTarget draws valid targets for a loss.
func genTarget(r *rand.Rand, k LossK, rows, cols int) M {
	y := zeros(rows, cols)
	soft := r.Intn(3) == 0
	for i := range y {
		if k == lCE {
			y[i][r.Intn(cols)] = 1
			continue
		}
		for j := range y[i] {
			switch k {
			case lBCE:
				if soft {
					y[i][j] = r.Float64()
				} else {
					y[i][j] = float64(r.Intn(2))
				}
			default:
				y[i][j] = r.NormFloat64()
			}
		}
	}
	return y
}

// genPred draws predictions valid for a loss, strictly inside the clamping range for
// the entropies.
func genPred(r *rand.Rand, k LossK, rows, cols int) M {
	p := zeros(rows, cols)
	norm := r.Intn(2) == 0
	for i := range p {
		s := 0.0
		for j := range p[i] {
			switch k {
			case lCE, lBCE:
				p[i][j] = 0.001 + 0.998*r.Float64()
				if r.Intn(5) == 0 {
					p[i][j] = logUniform(r, 1e-6, 0.5)
					if k == lBCE && r.Intn(2) == 0 {
						p[i][j] = 1 - p[i][j]
					}
				}
				s += p[i][j]
			default:
				p[i][j] = r.NormFloat64() * 2
			}
		}
		if k == lCE && norm && cols > 1 {
			for j := range p[i] {
				p[i][j] = math.Max(p[i][j]/s, 2e-7)
			}
		}
	}
	return p
}

// ---- optimizers ----

type OptK int

const (
	oSGD OptK = iota
	oAdam
)

// OptCfg is an optimizer's configuration.
type OptCfg struct {
	K                                 OptK
	LR, Decay, Mom, Eps, Beta1, Beta2 float64
}

func (o OptCfg) String() string {
	if o.K == oSGD {
		return fmt.Sprintf("sgd(lr=%g,decay=%g,mom=%g)", o.LR, o.Decay, o.Mom)
	}
	return fmt.Sprintf("adam(lr=%g,decay=%g,eps=%g,b1=%g,b2=%g)", o.LR, o.Decay, o.Eps, o.Beta1, o.Beta2)
}

func genOpt(r *rand.Rand, lrLo, lrHi float64) OptCfg {
	o := OptCfg{K: OptK(r.Intn(2)), LR: logUniform(r, lrLo, lrHi)}
	if r.Intn(2) == 0 {
		o.Decay = pick(r, 1e-3, 0.01, 0.1, 0.5, 1, r.Float64())
	}
	if o.K == oSGD {
		if r.Intn(2) == 0 {
			o.Mom = pick(r, 0.1, 0.5, 0.9, 0.95, r.Float64())
		}
	} else {
		o.Eps = pick(r, 1e-8, 1e-7, 1e-5, 1e-3, 1e-2, 0.1)
		o.Beta1 = pick(r, 0.9, 0.9, 0.5, 0.8, 0.99, 0.7*r.Float64())
		o.Beta2 = pick(r, 0.999, 0.999, 0.9, 0.99, 0.6, 0.95*r.Float64())
	}
	return o
}

func (o OptCfg) build(c *Ctx) nn.Optimizer {
	if o.K == oSGD {
		x, err := nn.NewSGDOptimizer(o.LR, o.Decay, o.Mom)
		if err != nil {
			c.Fail("constructor refused valid %s: %v", o, err)
		}
		return &x
	}
	x, err := nn.NewAdamOptimizer(o.LR, o.Decay, o.Eps, o.Beta1, o.Beta2)
	if err != nil {
		c.Fail("constructor refused valid %s: %v", o, err)
	}
	return &x
}

// ROpt is the reference optimizer's state for one parameter vector.
type ROpt struct {
	cfg  OptCfg
	t    int // completed updates
	m, v []float64
	// when set, the averages are disturbed by about the rounding of m + (1-beta)(g-m)
	noise *rand.Rand
	// bounds on the rounding of the averages, kept by whoever needs them
	errM, errV []float64
}

func newROpt(cfg OptCfg, n int) *ROpt {
	return &ROpt{cfg: cfg, m: make([]float64, n), v: make([]float64, n)}
}

// step returns the parameter changes for gradient g and advances the state.
func (o *ROpt) step(g []float64) []float64 {
	rate := o.cfg.LR / (1 + o.cfg.Decay*float64(o.t))
	o.t++
	d := make([]float64, len(g))
	for i := range g {
		if o.cfg.K == oSGD {
			if o.cfg.Mom == 0 {
				d[i] = -rate * g[i]
			} else {
				o.v[i] = o.cfg.Mom*o.v[i] - rate*g[i]
				d[i] = o.v[i]
			}
			continue
		}
		em, ev := math.Abs(o.m[i])+math.Abs(g[i]), o.v[i]+g[i]*g[i]
		o.m[i] = o.cfg.Beta1*o.m[i] + (1-o.cfg.Beta1)*g[i]
		o.v[i] = o.cfg.Beta2*o.v[i] + (1-o.cfg.Beta2)*g[i]*g[i]
		if o.noise != nil {
			o.m[i] += 1e-15 * em * o.noise.NormFloat64()
			o.v[i] = math.Abs(o.v[i] + 1e-15*ev*o.noise.NormFloat64())
		}
		mh := o.m[i] / (1 - math.Pow(o.cfg.Beta1, float64(o.t)))
		vh := o.v[i] / (1 - math.Pow(o.cfg.Beta2, float64(o.t)))
		d[i] = -rate * mh / (math.Sqrt(vh) + o.cfg.Eps)
	}
	return d
}

// ---- models ----

// RModel is the reference model.
type RModel struct {
	L    []*RL
	Loss LossK
	Acc  int // 0 regression, 1 categorical, 2 binary
	Prec float64
	Opt  OptCfg
	opts [][2]*ROpt
	// some pre-activation or residual was so close to a kink that rounding decides
	ambiguous bool
	// when set, every intermediate result is disturbed by about 1e-14 of its size, to
	// measure how strongly rounding is amplified
	noise *rand.Rand
}

func (m *RModel) String() string {
	s := ""
	for _, l := range m.L {
		s += l.String() + ">"
	}
	return fmt.Sprintf("%s%s/%s/acc%d", s, lossNames[m.Loss], m.Opt, m.Acc)
}

func (m *RModel) clone() *RModel {
	n := *m
	n.L = nil
	for _, l := range m.L {
		n.L = append(n.L, l.clone())
	}
	n.opts = nil
	n.noise = nil
	return &n
}

func (m *RModel) in() int  { return m.L[0].In }
func (m *RModel) out() int { return m.L[len(m.L)-1].Out }

func (m *RModel) resetOpts() {
	m.opts = nil
	for _, l := range m.L {
		p := [2]*ROpt{newROpt(m.Opt, l.In*l.Out), newROpt(m.Opt, l.Out)}
		p[0].noise, p[1].noise = m.noise, m.noise
		m.opts = append(m.opts, p)
	}
}

type genOpts struct {
	maxDepth, maxW int
	kinds          []Kind // allowed layer kinds
	lossOK         []LossK
	scale          float64
	lrLo, lrHi     float64
}

var denseKinds = []Kind{kHidden, kLinear, kSigmoid, kLeaky, kSoftmax}
var allKinds = []Kind{kHidden, kLinear, kSigmoid, kLeaky, kSoftmax, kDropout}
var smoothKinds = []Kind{kLinear, kSigmoid, kSoftmax}

// genModel draws a stack; the last layer suits the loss.
func genModel(r *rand.Rand, g genOpts) *RModel {
	if g.maxDepth == 0 {
		g.maxDepth = 4
	}
	if g.maxW == 0 {
		g.maxW = 8
	}
	if g.kinds == nil {
		g.kinds = denseKinds
	}
	if g.lossOK == nil {
		g.lossOK = []LossK{lMSE, lMAE, lCE, lBCE}
	}
	if g.lrLo == 0 {
		g.lrLo, g.lrHi = 1e-3, 0.2
	}
	m := &RModel{Loss: g.lossOK[r.Intn(len(g.lossOK))]}
	depth := 1 + r.Intn(g.maxDepth)
	w := smallSize(r, g.maxW)
	for i := 0; i < depth; i++ {
		k := g.kinds[r.Intn(len(g.kinds))]
		_, out := square(r, w, smallSize(r, g.maxW))
		if i == depth-1 {
			switch m.Loss {
			case lCE:
				k = kSoftmax
				if r.Intn(4) == 0 {
					k = kSigmoid
				}
				out = 2 + r.Intn(g.maxW)
			case lBCE:
				k = kSigmoid
				if r.Intn(4) == 0 {
					k = kSoftmax
					out = 2 + r.Intn(g.maxW)
				}
			}
		}
		sc := g.scale
		if sc == 0 {
			sc = math.Sqrt(2/float64(w)) * (0.5 + r.Float64())
		}
		m.L = append(m.L, genLayer(r, k, w, out, sc))
		w = out
	}
	switch m.Loss {
	case lCE:
		m.Acc = 1
	case lBCE:
		m.Acc = 2
	}
	if r.Intn(5) == 0 {
		m.Acc = r.Intn(3)
	}
	m.Prec = pick(r, 0, 0.01, 0.5, 2, r.Float64())
	m.Opt = genOpt(r, g.lrLo, g.lrHi)
	return m
}

// build makes the library model.
func (m *RModel) build(c *Ctx) *nn.Model {
	mod := nn.NewModel()
	for _, l := range m.L {
		if err := mod.AddLayer(l.build(c).L); err != nil {
			c.Fail("AddLayer refused %s in %s: %v", l, m, err)
		}
	}
	if err := mod.Finalize(buildLoss(c, m.Loss, m.out()), m.Opt.build(c), nn.AccuracyType(m.Acc), m.Prec); err != nil {
		c.Fail("Finalize refused %s: %v", m, err)
	}
	return &mod
}

func (m *RModel) disturb(a M) M {
	if m.noise != nil {
		for i := range a {
			for j := range a[i] {
				a[i][j] *= 1 + 1e-14*m.noise.NormFloat64()
			}
		}
	}
	return a
}

// gradTol bounds the deviation from ref that rounding can explain.
func (m *RModel) gradTol(r *rand.Rand, x, y M, ref []RGrad) float64 {
	sc, diff := 1e-30, 0.0
	for k := 0; k < 4; k++ {
		n := *m
		n.noise = r
		for i, g := range n.grads(x, y) {
			for a := range g.W {
				for b := range g.W[a] {
					sc = math.Max(sc, math.Abs(ref[i].W[a][b]))
					diff = math.Max(diff, math.Abs(g.W[a][b]-ref[i].W[a][b]))
				}
			}
			for b := range g.B {
				sc = math.Max(sc, math.Abs(ref[i].B[b]))
				diff = math.Max(diff, math.Abs(g.B[b]-ref[i].B[b]))
			}
		}
	}
	return 1e-10*sc + 1000*diff + 1e-300
}

// forward returns pre-activations and outputs (outs[0] is x).
func (m *RModel) forward(x M) (zs, outs []M) {
	outs = []M{x}
	for _, l := range m.L {
		z, mag := l.pre(outs[len(outs)-1])
		if l.nearKink(z, mag) {
			m.ambiguous = true
		}
		if m.noise != nil {
			for i := range z {
				for j := range z[i] {
					z[i][j] += 1e-14 * mag[i][j] * m.noise.NormFloat64()
				}
			}
		}
		zs = append(zs, z)
		outs = append(outs, m.disturb(l.act(z)))
	}
	return
}

func (m *RModel) predictRaw(x M) M { _, o := m.forward(x); return o[len(o)-1] }

func (m *RModel) loss(x, y M) float64 { return rloss(m.Loss, m.predictRaw(x), y) }

type RGrad struct {
	W M
	B []float64
}

// grads returns the gradients, first layer first.
func (m *RModel) grads(x, y M) []RGrad {
	zs, outs := m.forward(x)
	n := len(m.L)
	gs := make([]RGrad, n)
	var d M
	for i := n - 1; i >= 0; i-- {
		l := m.L[i]
		var dz M
		if i == n-1 && m.Loss == lCE && l.K == kSoftmax {
			// exact gradient of -log softmax, one-hot targets
			dz = zeros(len(x), l.Out)
			for a := range dz {
				for b := range dz[a] {
					dz[a][b] = (outs[n][a][b] - y[a][b]) / float64(len(x))
				}
			}
		} else {
			if i == n-1 {
				d = m.disturb(rlossGrad(m.Loss, outs[n], y))
				if m.Loss == lMAE {
					for a := range y {
						for b := range y[a] {
							if p := outs[n][a][b]; (p != 0 || y[a][b] != 0) && math.Abs(p-y[a][b]) < 1e-9*(math.Abs(p)+1) {
								m.ambiguous = true
							}
						}
					}
				}
			}
			dz = m.disturb(l.dact(zs[i], outs[i+1], d))
			if m.noise != nil && l.K == kSigmoid {
				// an implementation computes 1-s from the rounded s
				for a := range dz {
					for b, v := range zs[i][a] {
						dz[a][b] += math.Abs(d[a][b]) * 1e-14 * m.noise.NormFloat64() / (1 + math.Exp(-v))
					}
				}
			}
		}
		var dx M
		gs[i].W, gs[i].B, dx = l.backPre(outs[i], dz)
		d = dx
	}
	return gs
}

func flat(a M) []float64 {
	var o []float64
	for _, r := range a {
		o = append(o, r...)
	}
	return o
}

// fit is the reference trainer (dropout treated as rate 0).
func (m *RModel) fit(x, y M, epochs, batch int) {
	if m.opts == nil {
		m.resetOpts()
	}
	if batch == 0 || batch > len(y) {
		batch = len(y)
	}
	for e := 0; e < epochs; e++ {
		for s := 0; s < len(y); s += batch {
			t := s + batch
			if t > len(y) {
				t = len(y)
			}
			gs := m.grads(x[s:t], y[s:t])
			for i, l := range m.L {
				dw := m.opts[i][0].step(flat(gs[i].W))
				k := 0
				for a := range l.W {
					for b := range l.W[a] {
						l.W[a][b] += dw[k]
						k++
					}
				}
				db := m.opts[i][1].step(gs[i].B)
				for b := range l.B {
					l.B[b] += db[b]
				}
			}
		}
	}
}

// params of a library model, layer by layer.
func paramsOf(c *Ctx, mod *nn.Model) (ws []M, bs []M) {
	for i, l := range mod.Layers {
		x, k := layOf(l)
		if k < 0 {
			c.Fail("layer %d of the model has unexpected type %T", i, l)
		}
		ws = append(ws, fromNN(c, "weights", *x.W()))
		bs = append(bs, fromNN(c, "biases", *x.B()))
	}
	return
}

func checkParams(c *Ctx, what string, mod *nn.Model, m *RModel, rel float64) {
	ws, bs := paramsOf(c, mod)
	for i, l := range m.L {
		t := rel * (maxAbs(l.W) + maxAbs(M{l.B}) + 1e-3)
		checkClose(c, fmt.Sprintf("%s: weights of layer %d (%s)", what, i, l), ws[i], l.W, constTol(t))
		checkClose(c, fmt.Sprintf("%s: biases of layer %d (%s)", what, i, l), bs[i], M{l.B}, constTol(t))
	}
}

func sameParams(c *Ctx, what string, w1, b1, w2, b2 []M) {
	for i := range w1 {
		if !sameBits(w1[i], w2[i]) {
			c.Fail("%s: weights of layer %d changed", what, i)
		}
		if !sameBits(b1[i], b2[i]) {
			c.Fail("%s: biases of layer %d changed", what, i)
		}
	}
}

// ---- decisions and metrics ----

func rArgmax(row []float64) int {
	k := 0
	for j := range row {
		if row[j] > row[k] {
			k = j
		}
	}
	return k
}

func rAccuracy(kind int, prec float64, p, y M) float64 {
	n, tot := 0, 0
	for i := range y {
		switch kind {
		case 1:
			tot++
			if y[i][rArgmax(p[i])] == 1 {
				n++
			}
		default:
			for j := range y[i] {
				tot++
				if kind == 0 && math.Abs(p[i][j]-y[i][j]) < prec {
					n++
				}
				if kind == 2 {
					b := 1.0
					if p[i][j] < 0.5 {
						b = 0
					}
					if b == y[i][j] {
						n++
					}
				}
			}
		}
	}
	return float64(n) / float64(tot)
}

func (m *RModel) work() (n int) {
	for _, l := range m.L {
		n += l.In * l.Out
	}
	return
}
