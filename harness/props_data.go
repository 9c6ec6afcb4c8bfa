package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"log"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C19", Quick: 40000, Thorough: 300000, Run: runC19,
		Rule: "a case is one model (any layers, any bit patterns, up to 127 layers, or more to be refused), possibly trained, saved to a buffer or file, loaded and compared field by field, bit by bit, in its predictions and in continued training; non-trivial with at least two layers",
		Floors: map[string]int64{"loaded twice": 4000, "file replaced by another model": 500, "round trips judged": 6000, "special bit patterns": 3000, "through a file": 500, "127 layers": 8, "too many layers refused": 20, "wide layers": 50, "predictions compared": 3000, "continued training compared": 2000, "single layers": 500, "trained before saving": 2000,
			"kind relu": 2000, "kind linear": 2000, "kind sigmoid": 2000, "kind leaky": 2000, "kind softmax": 2000, "kind dropout": 2000, "saved twice": 500, "extreme widths": 12}})
	register(&Prop{ID: "C20", Quick: 120000, Thorough: 400000, Run: runC20,
		Rule:   "a case is one model whose saved bytes are read back by an independent strict decoder, and whose independently written bytes (optimizer entries in random order, any version string) are loaded by the library, alone or back to back with others and trailing bytes; non-trivial with at least two layers",
		Floors: map[string]int64{"written bytes judged": 10000, "independent bytes loaded": 10000, "other versions": 4000, "version warnings": 4000, "back to back": 4000, "layers written judged": 1000, "layers loaded": 1000, "appended to a used buffer": 2000, "sgd entries": 2000, "adam entries": 2000, "extreme widths": 40, "entries of other names": 1000}})
	register(&Prop{ID: "C21", Quick: 22000, Thorough: 400000, Run: runC21,
		Rule:   "a case is one valid model file damaged in one class of ways (every strict prefix; one field of each kind set to bad values; random flips; random bytes); the loader must refuse the named classes and otherwise refuse or yield a usable model, within an allocation bound proportional to the input; non-trivial always, distinct by the damage",
		Floors: map[string]int64{"prefixes refused": 200000, "field damage refused": 30000, "random damage": 40000, "garbage": 30000, "survivors used": 5000, "allocation bounds checked": 50000, "layer prefixes refused": 50000, "damage magic": 500, "damage layer magic": 500, "damage layer type": 500, "damage loss type": 500, "damage optimizer type": 500, "damage negative count": 500, "damage negative count, nothing there": 300, "damage size": 500, "damage chain": 300, "damage huge": 500}})
	register(&Prop{ID: "C22", Quick: 2500, Thorough: 60000, Run: runC22,
		Rule:   "a case is one model saved and loaded under one class of file system trouble (writes cut short at every byte by a file size limit, a full file system, links, missing permissions, impossible paths, files to be overwritten, models that cannot be encoded; missing, empty, cut-short, unreadable files), with the directory, the file's bytes and the open file handles compared before and after; non-trivial when a fault was injected",
		Floors: map[string]int64{"unusual file names": 200, "relative paths": 100, "writes cut short": 30000, "full file systems": 200, "saves through links": 200, "impossible paths": 1000, "overwrites of longer files": 120, "saves judged": 1500, "unencodable models": 200, "loads refused": 5000, "cut-short files": 3000, "neighbours of popular names": 800, "handle counts compared": 5000, "big files": 20}})
}

// describe reads a library model into reference form.
func describe(c *Ctx, what string, mod *nn.Model) *RModel {
	m := &RModel{Acc: int(mod.AccuracyType), Prec: mod.AccuracyPercision}
	if mod.ModelSize != len(mod.Layers) {
		c.Fail("%s: model says %d layers but holds %d", what, mod.ModelSize, len(mod.Layers))
	}
	if len(mod.Optimizers) != len(mod.Layers) {
		c.Fail("%s: %d optimizers for %d layers", what, len(mod.Optimizers), len(mod.Layers))
	}
	switch l := mod.Loss.(type) {
	case *nn.MeanSquaredLoss:
		m.Loss = lMSE
	case *nn.MeanAbsoluteLoss:
		m.Loss = lMAE
	case *nn.CrossEntropyLoss:
		m.Loss = lCE
	case *nn.BinaryCrossEntropyLoss:
		m.Loss = lBCE
	default:
		c.Fail("%s: unexpected loss %T", what, l)
	}
	if LossK(mod.LossType) != m.Loss {
		c.Fail("%s: recorded loss type %d but a loss of type %d", what, mod.LossType, m.Loss)
	}
	for i, o := range mod.Optimizers {
		var k OptCfg
		switch o := o.(type) {
		case *nn.SGDOptimizer:
			k = OptCfg{K: oSGD, LR: o.LearningRate, Decay: o.Decay, Mom: o.Momentum}
		case *nn.AdamOptimizer:
			k = OptCfg{K: oAdam, LR: o.LearningRate, Decay: o.Decay, Eps: o.Epsilon, Beta1: o.Beta1, Beta2: o.Beta2}
		default:
			c.Fail("%s: unexpected optimizer %T", what, o)
		}
		if i > 0 && k != m.Opt && k == k {
			c.Fail("%s: optimizers of layers 0 and %d differ: %s, %s", what, i, m.Opt, k)
		}
		m.Opt = k
	}
	if len(mod.Optimizers) > 0 && OptK(mod.OptimizerType) != m.Opt.K {
		c.Fail("%s: recorded optimizer type %d but optimizers of type %d", what, mod.OptimizerType, m.Opt.K)
	}
	for i, l := range mod.Layers {
		x, k := layOf(l)
		if k < 0 {
			c.Fail("%s: layer %d has unexpected type %T", what, i, l)
		}
		m.L = append(m.L, describeLayer(c, what, x, k))
	}
	if len(m.L) > 0 && (mod.InputSize != m.in() || mod.OutputSize != m.out()) {
		c.Fail("%s: recorded sizes %d, %d but layers of %d, %d", what, mod.InputSize, mod.OutputSize, m.in(), m.out())
	}
	return m
}

func describeLayer(c *Ctx, what string, x Lay, k Kind) *RL {
	n := &RL{K: k, W: fromNN(c, what, *x.W()), B: fromNN(c, what, *x.B())[0]}
	switch l := x.L.(type) {
	case *nn.HiddenLayer:
		n.In, n.Out = l.InputSize, l.OutputSize
	case *nn.LinearLayer:
		n.In, n.Out = l.InputSize, l.OutputSize
	case *nn.SigmoidLayer:
		n.In, n.Out = l.InputSize, l.OutputSize
	case *nn.LeakyLayer:
		n.In, n.Out, n.Slope = l.InputSize, l.OutputSize, l.Slope
	case *nn.SoftmaxLayer:
		n.In, n.Out = l.InputSize, l.OutputSize
	case *nn.DropoutLayer:
		n.In, n.Out, n.Drop = l.InputSize, l.OutputSize, l.Dropout
	}
	if len(n.W) != n.In || len(n.W[0]) != n.Out || len(n.B) != n.Out {
		c.Fail("%s: a layer of size %dx%d holds weights %s and %d biases", what, n.In, n.Out, dims(n.W), len(n.B))
	}
	return n
}

// genDataModel draws models for the data properties.
func genDataModel(c *Ctx, r *rand.Rand, maxDepth, maxW int) (m *RModel, special bool) {
	m = genModel(r, genOpts{maxDepth: maxDepth, maxW: maxW, kinds: allKinds})
	if r.Intn(2) == 0 { // no restriction on the last layer
		i := len(m.L) - 1
		l := m.L[i]
		m.L[i] = genLayer(r, allKinds[r.Intn(len(allKinds))], l.In, l.Out, 1)
		m.Loss = LossK(r.Intn(4))
	}
	m.Acc = r.Intn(3)
	if r.Intn(3) == 0 {
		m.Prec = pick(r, 0, 5e-324, math.MaxFloat64, 1e-300, 0.1, 1.0/3)
		m.Opt.LR = pick(r, 5e-324, 0.1, 1.0/3, 1e300, 1)
		m.Opt.Decay = pick(r, 0, 1e-320, 0.7, 1e200)
		if m.Opt.K == oSGD {
			m.Opt.Mom = pick(r, 0, 1e-310, 0.9, 3)
		} else {
			m.Opt.Eps, m.Opt.Beta1, m.Opt.Beta2 = pick(r, 0, 1e-8, 1e-310), pick(r, 0, 0.9, 1, 1.0/3), pick(r, 0, 0.999, 1, 1.0/7)
		}
	}
	for _, l := range m.L {
		if l.K == kLeaky && r.Intn(3) == 0 {
			l.Slope = pick(r, 5e-324, 1e300, 1.0/3, 0)
		}
		if l.K == kDropout && r.Intn(3) == 0 {
			l.Drop = pick(r, 0, 1, 1.0/3, 5e-324, math.Nextafter(1, 0))
		}
	}
	if r.Intn(3) == 0 {
		special = true
		for _, l := range m.L {
			l.W = genM(r, l.In, l.Out, vSpecial)
			l.B = genM(r, 1, l.Out, vSpecial)[0]
		}
	}
	return
}

// extremeWidth replaces the model by a layer or two around a width that takes more
// than 15, 16 or 8 bits.
func extremeWidth(c *Ctx, r *rand.Rand, m *RModel) {
	w := []int{32767, 32768, 33000, 65535, 65536, 65537, 70000, 129, 255, 256, 257, 1000}[r.Intn(12)]
	kinds := []Kind{kHidden, kLinear, kSigmoid, kLeaky, kDropout}
	k1, k2 := kinds[r.Intn(5)], kinds[r.Intn(5)]
	switch r.Intn(4) {
	case 0: // in the middle
		m.L = []*RL{genLayer(r, k1, 1+r.Intn(2), w, 0.1), genLayer(r, k2, w, 1+r.Intn(2), 0.1)}
	case 1: // many inputs
		m.L = []*RL{genLayer(r, k1, w, 1, 0.1)}
		if r.Intn(2) == 0 {
			m.L = append(m.L, genLayer(r, k2, 1, 2, 1))
		}
	case 2: // many outputs
		m.L = []*RL{genLayer(r, k1, 1, w, 0.1)}
	case 3: // 100s on both sides
		m.L = []*RL{genLayer(r, k1, 65+r.Intn(200), 65+r.Intn(200), 0.1)}
	}
	c.Cov("extreme widths", 1)
}

func saveBuf(c *Ctx, mod *nn.Model) []byte {
	d := nn.NewSavedModelData(*mod)
	var buf bytes.Buffer
	if err := d.Serialize(&buf); err != nil {
		c.Fail("save refused a valid model: %v", err)
	}
	return buf.Bytes()
}

func runC19(c *Ctx) {
	r := c.R
	if r.Intn(10) == 0 {
		layerTrip(c)
		return
	}
	var m *RModel
	special := false
	switch k := r.Intn(80); {
	case k == 0: // as deep as it gets, or deeper
		n := []int{127, 127, 126, 128, 129, 200, 255, 256, 257, 300}[r.Intn(10)]
		m = genModel(r, genOpts{maxDepth: 1, maxW: 2})
		m.L = nil
		w := 1 + r.Intn(2)
		for i := 0; i < n; i++ {
			out := 1 + r.Intn(2)
			m.L = append(m.L, genLayer(r, allKinds[r.Intn(len(allKinds))], w, out, 1))
			w = out
		}
		m.Loss = LossK(r.Intn(4))
		c.Desc("%d layers", n)
		if n == 127 {
			c.Cov("127 layers", 1)
		}
		if n > 127 {
			mod := m.build(c)
			d := nn.NewSavedModelData(*mod)
			var buf bytes.Buffer
			if err := d.Serialize(&buf); err == nil {
				c.Fail("a model of %d layers was saved, though the layer count has one byte", n)
			}
			if err := nn.SaveFile(mod, filepath.Join(c.Dir, "deep.nn")); err == nil {
				c.Fail("a model of %d layers was saved to a file, though the layer count has one byte", n)
			}
			if s := diffModel(describe(c, "refused model", mod), m); s != "" {
				c.Fail("refused saving changed the model: %s", s)
			}
			c.Cov("too many layers refused", 1)
			return
		}
	case k == 1:
		m, special = genDataModel(c, r, 2, 5)
		in, out := 1+r.Intn(400), 1+r.Intn(400)
		if r.Intn(4) == 0 {
			extremeWidth(c, r, m)
			break
		}
		if r.Intn(2) == 0 {
			in, out = 1+r.Intn(5), 1000+r.Intn(3000)
			if r.Intn(2) == 0 {
				in, out = out, in
			}
		}
		l := m.L[len(m.L)-1]
		m.L = append(m.L[:len(m.L)-1], genLayer(r, l.K, l.In, in, 1), genLayer(r, allKinds[r.Intn(len(allKinds))], in, out, 0.1))
		for _, l := range m.L {
			if l.K == kSoftmax && l.Out > 400 { // its backward pass takes memory of the square
				l.K = kSigmoid
			}
		}
		c.Cov("wide layers", 1)
	default:
		m, special = genDataModel(c, r, 5, 9)
	}
	if special {
		c.Cov("special bit patterns", 1)
	}
	if len(m.L) > 1 {
		c.NT()
	}
	for _, l := range m.L {
		c.Cov("kind "+kindNames[l.K], 1)
	}
	c.Desc("%s special=%v", m, special)
	mod := m.build(c)
	var x, y M
	if !special {
		x, y = genM(r, 1+r.Intn(6), m.in(), vNormal), genTarget(r, m.Loss, 1, m.out())
		for len(y) < len(x) {
			y = append(y, genTarget(r, m.Loss, 1, m.out())[0])
		}
		if r.Intn(2) == 0 { // some history: weights and optimizer state
			if err := mod.Fit(toNN(r, x), toNN(r, y), 1+r.Intn(3), genBatch(r, len(x)), nnEmpty(), nnEmpty(), 0); err != nil {
				c.Fail("training refused: %v", err)
			}
			c.Cov("trained before saving", 1)
			ws, bs := paramsOf(c, mod)
			for i := range m.L {
				m.L[i].W, m.L[i].B = ws[i], bs[i][0]
			}
		}
	}
	var loaded nn.Model
	var err error
	var reload func() (nn.Model, error)
	saved := m.clone()
	if r.Intn(5) == 0 {
		path := filepath.Join(c.Dir, "c19.nn")
		if err = nn.SaveFile(mod, path); err != nil {
			c.Fail("saving to a file refused: %v", err)
		}
		if loaded, err = nn.LoadFile(path); err != nil {
			c.Fail("loading a saved file refused: %v (%s)", err, m)
		}
		c.Cov("through a file", 1)
		reload = func() (nn.Model, error) { return nn.LoadFile(path) }
		if r.Intn(3) == 0 {
			replaceFile(c, mod, m, path)
		}
	} else {
		b := saveBuf(c, mod)
		reload = func() (nn.Model, error) { return nn.LoadModel(bytes.NewBuffer(append([]byte(nil), b...))) }
		if loaded, err = nn.LoadModel(bytes.NewBuffer(b)); err != nil {
			c.Fail("loading a saved model refused: %v (%s)", err, m)
		}
		if r.Intn(5) == 0 { // saving again gives the same model again
			b2 := saveBuf(c, &loaded)
			again, err := nn.LoadModel(bytes.NewBuffer(b2))
			if err != nil {
				c.Fail("loading a model saved twice refused: %v", err)
			}
			if len(b) != len(b2) {
				c.Fail("saving a loaded model gives %d bytes, the first time it gave %d", len(b2), len(b))
			}
			if s := diffModel(describe(c, "model saved twice", &again), m); s != "" {
				c.Fail("after saving and loading twice: %s", s)
			}
			c.Cov("saved twice", 1)
		}
	}
	if s := diffModel(describe(c, "saved model", mod), m); s != "" {
		c.Fail("saving changed the model: %s", s)
	}
	if s := diffModel(describe(c, "loaded model", &loaded), m); s != "" {
		c.Fail("after saving and loading: %s", s)
	}
	for k, v := range m.Opt.values() {
		if !sameFloat(loaded.OptimizerValues[k], v) {
			c.Fail("loaded model records %s=%v, want %v", k, loaded.OptimizerValues[k], v)
		}
	}
	c.Cov("round trips judged", 1)
	if special {
		return
	}
	X, Y := toNN(r, x), toNN(r, y)
	o1, e1 := mod.Forward(X, false)
	o2, e2 := loaded.Forward(X, false)
	if e1 != nil || e2 != nil {
		c.Fail("inference refused: %v, %v", e1, e2)
	}
	for i := range o1 {
		if !sameBits(o1[i].M, o2[i].M) {
			c.Fail("output %d of the loaded model differs from the original's: %v, %v (%s)", i, o2[i].M, o1[i].M, m)
		}
	}
	p1, e1 := mod.Predict(X)
	p2, e2 := loaded.Predict(X)
	if e1 != nil || e2 != nil || !sameBits(p1.M, p2.M) {
		c.Fail("predictions of the loaded model differ from the original's: %v %v, %v %v", p2.M, e2, p1.M, e1)
	}
	l1, e1 := mod.CalculateLoss(X, Y)
	l2, e2 := loaded.CalculateLoss(X, Y)
	a1, e3 := mod.CalculateAccuracy(X, Y)
	a2, e4 := loaded.CalculateAccuracy(X, Y)
	if e1 != nil || e2 != nil || e3 != nil || e4 != nil || !sameVal(l1, l2) || a1 != a2 {
		c.Fail("loss and accuracy of the loaded model are %v, %v, the original's %v, %v (%v %v %v %v)", l2, a2, l1, a1, e1, e2, e3, e4)
	}
	c.Cov("predictions compared", 1)
	for _, l := range m.L {
		if l.K == kDropout && l.Drop > 0 {
			return
		}
	}
	// continued training equals training the original with fresh optimizer state
	if err := mod.Finalize(buildLoss(c, m.Loss, m.out()), m.Opt.build(c), nn.AccuracyType(m.Acc), m.Prec); err != nil {
		c.Fail("Finalize again refused: %v", err)
	}
	ep, ba := 1+r.Intn(3), genBatch(r, len(x))
	for k := 0; k < 2; k++ {
		e1 = mod.Fit(X, Y, ep, ba, nnEmpty(), nnEmpty(), 0)
		e2 = loaded.Fit(X, Y, ep, ba, nnEmpty(), nnEmpty(), 0)
		if e1 != nil || e2 != nil {
			c.Fail("continued training refused: %v, %v", e1, e2)
		}
		w1, b1 := paramsOf(c, mod)
		w2, b2 := paramsOf(c, &loaded)
		for i := range w1 {
			if !sameBitsOrNaN(w1[i], w2[i]) || !sameBitsOrNaN(b1[i], b2[i]) {
				c.Fail("after continued training, layer %d of the loaded model differs from the original trained with fresh optimizer state (%s)", i, m)
			}
		}
	}
	c.Cov("continued training compared", 1)
	// what was done to the first loaded model does not show in the next
	again, err := reload()
	if err != nil {
		c.Fail("loading once more refused: %v", err)
	}
	if s := diffModel(describe(c, "model loaded once more", &again), saved); s != "" {
		c.Fail("after training the model loaded first, loading once more: %s", s)
	}
	w3, b3 := paramsOf(c, &loaded)
	again.InitLayers()
	if err := again.Fit(X, Y, 1, 0, nnEmpty(), nnEmpty(), 0); err != nil {
		c.Fail("training refused: %v", err)
	}
	w4, b4 := paramsOf(c, &loaded)
	for i := range w3 {
		if !sameBitsOrNaN(w3[i], w4[i]) || !sameBitsOrNaN(b3[i], b4[i]) {
			c.Fail("training a model loaded later changed layer %d of the one loaded first (%s)", i, m)
		}
	}
	c.Cov("loaded twice", 1)
}

// replaceFile saves another model of the same shape over the file and loads that, then
// puts the first one back. The times of the file do not tell the two apart.
func replaceFile(c *Ctx, mod *nn.Model, m *RModel, path string) {
	r := c.R
	st, err := os.Stat(path)
	if err != nil {
		panic(err)
	}
	other := m.clone()
	for _, l := range other.L {
		if r.Intn(2) == 0 || len(other.L) == 1 {
			l.W[r.Intn(l.In)][r.Intn(l.Out)] = r.NormFloat64()
			l.B[r.Intn(l.Out)] = r.NormFloat64()
		}
	}
	for k := 0; k < 2; k++ {
		what, x, want := "another model", other.build(c), other
		if k == 1 {
			what, x, want = "the first model again", mod, m
		}
		if err := nn.SaveFile(x, path); err != nil {
			c.Fail("saving %s over a file refused: %v", what, err)
		}
		if r.Intn(2) == 0 {
			if err := os.Chtimes(path, st.ModTime(), st.ModTime()); err != nil {
				panic(err)
			}
		}
		l, err := nn.LoadFile(path)
		if err != nil {
			c.Fail("loading %s refused: %v", what, err)
		}
		if s := diffModel(describe(c, "loaded model", &l), want); s != "" {
			c.Fail("after saving %s over a file and loading that: %s", what, s)
		}
	}
	c.Cov("file replaced by another model", 1)
}

// sameBitsOrNaN: bit-identical, any NaN equal to any other (its bits are no result).
func sameBitsOrNaN(a, b M) bool {
	for i := range a {
		for j := range a[i] {
			if !sameFloat(a[i][j], b[i][j]) && !(a[i][j] != a[i][j] && b[i][j] != b[i][j]) {
				return false
			}
		}
	}
	return true
}

func layerTrip(c *Ctx) {
	r := c.R
	m, _ := genDataModel(c, r, 1, 20)
	l := m.L[0]
	c.Desc("layer %s", l)
	x := l.build(c)
	d := nn.NewSavedLayerData(x.L)
	var buf bytes.Buffer
	if err := d.SerializeLayer(&buf); err != nil {
		c.Fail("layer refused at saving: %v", err)
	}
	n, err := nn.LoadLayer(&buf)
	if err != nil {
		c.Fail("loading a saved layer refused: %v", err)
	}
	if buf.Len() != 0 {
		c.Fail("loading a saved layer left %d bytes", buf.Len())
	}
	y, k := layOf(n)
	if k < 0 {
		c.Fail("loading a saved layer gave a %T", n)
	}
	if s := diffLayer(describeLayer(c, "loaded layer", y, k), l); s != "" {
		c.Fail("after saving and loading a layer: %s", s)
	}
	if s := diffLayer(describeLayer(c, "saved layer", x, l.K), l); s != "" {
		c.Fail("saving changed the layer: %s", s)
	}
	in := genM(r, 3, l.In, vNormal)
	o1, e1 := inferForward(x, toNN(r, in))
	o2, e2 := inferForward(y, toNN(r, in))
	if e1 != nil || e2 != nil || !sameBitsOrNaN(o1.M, o2.M) {
		c.Fail("the loaded layer computes other outputs than the original")
	}
	c.Cov("single layers", 1)
}

// ---- C20 ----

func genVersion(r *rand.Rand) string {
	switch r.Intn(4) {
	case 0:
		return nn.VERSION
	case 1:
		return []string{"1.0.0", "0.0.0", "9.9.9", "1.0.4", "2.0.3"}[r.Intn(5)]
	case 2:
		return []string{"abcde", "1.0  ", "     ", "%d%s%", "\x00\x00\x00\x00\x00"}[r.Intn(5)]
	}
	b := make([]byte, 5)
	r.Read(b)
	return string(b)
}

func runC20(c *Ctx) {
	r := c.R
	if len(nn.VERSION) != 5 {
		c.Fail("the package's version %q does not fit the format's 5 bytes", nn.VERSION)
	}
	m, special := genDataModel(c, r, 4, 8)
	if r.Intn(100) == 0 {
		w := m.out()
		for len(m.L) < 127 {
			out := 1 + r.Intn(2)
			m.L = append(m.L, genLayer(r, allKinds[r.Intn(len(allKinds))], w, out, 1))
			w = out
		}
	}
	if r.Intn(250) == 0 {
		extremeWidth(c, r, m)
	}
	c.Desc("%s special=%v", m, special)
	if len(m.L) > 1 {
		c.NT()
	}
	if m.Opt.K == oSGD {
		c.Cov("sgd entries", 1)
	} else {
		c.Cov("adam entries", 1)
	}
	// what the library writes
	mod := m.build(c)
	d := nn.NewSavedModelData(*mod)
	pre := make([]byte, 0)
	if r.Intn(3) == 0 {
		pre = make([]byte, r.Intn(30))
		r.Read(pre)
		c.Cov("appended to a used buffer", 1)
	}
	buf := bytes.NewBuffer(append([]byte(nil), pre...))
	if err := d.Serialize(buf); err != nil {
		c.Fail("save refused: %v", err)
	}
	b := buf.Bytes()
	if !bytes.HasPrefix(b, pre) {
		c.Fail("saving into a used buffer changed what was there")
	}
	b = b[len(pre):]
	got, ver, n, err := decodeModel(b)
	if err != nil {
		c.Fail("the saved bytes do not follow the documented format: %v (%s)", err, m)
	}
	if ver != nn.VERSION {
		c.Fail("the saved version is %q, the package's is %q", ver, nn.VERSION)
	}
	if n != len(b) {
		c.Fail("%d bytes follow the saved model", len(b)-n)
	}
	if s := diffModel(got, m); s != "" {
		c.Fail("the saved bytes describe another model: %s", s)
	}
	for i, l := range got.L {
		if l.K != kLeaky && l.Slope != 0 || l.K != kDropout && l.Drop != 0 {
			c.Fail("layer %d (%s) was saved with slope %v, dropout %v", i, l, l.Slope, l.Drop)
		}
	}
	c.Cov("written bytes judged", 1)

	// what others write
	for _, l := range m.L { // unused optional values are 0
		if l.K != kLeaky {
			l.Slope = 0
		}
		if l.K != kDropout {
			l.Drop = 0
		}
	}
	type part struct {
		m   *RModel
		l   *RL
		ver string
	}
	var parts []part
	var all []byte
	k := 1
	if r.Intn(3) == 0 {
		k = 2 + r.Intn(3)
		c.Cov("back to back", 1)
	}
	for i := 0; i < k; i++ {
		q, _ := genDataModel(c, r, 3, 6)
		if i == 0 {
			q = m
		}
		if r.Intn(5) == 0 {
			parts = append(parts, part{l: q.L[0]})
			all = append(all, encodeLayer(q.L[0]).b...)
		} else {
			v := genVersion(r)
			parts = append(parts, part{m: q, ver: v})
			more := map[string]float64{}
			if r.Intn(8) == 0 { // entries that other tools may add
				for n := []int{1, 1, 2, 5, 120}[r.Intn(5)]; n > 0; n-- {
					key := make([]byte, 1+r.Intn(127))
					for j := range key {
						key[j] = byte('a' + r.Intn(26))
					}
					if _, known := q.Opt.values()[string(key)]; !known {
						more[string(key)] = r.NormFloat64()
					}
				}
				c.Cov("entries of other names", 1)
			}
			all = append(all, encodeModelWith(r, q, v, more).b...)
		}
	}
	trail := make([]byte, r.Intn(20))
	r.Read(trail)
	if r.Intn(2) == 0 {
		trail = nil
	}
	in := bytes.NewBuffer(append(append([]byte(nil), all...), trail...))
	var warn bytes.Buffer
	nn.WarningLogger = log.New(&warn, "", 0)
	defer quietLoggers()
	for i, p := range parts {
		if p.l != nil {
			y, err := nn.LoadLayer(in)
			if err != nil {
				c.Fail("part %d: an independently written layer was refused: %v (%s)", i, err, p.l)
			}
			x, kind := layOf(y)
			if kind < 0 {
				c.Fail("part %d: a layer loaded as %T", i, y)
			}
			if s := diffLayer(describeLayer(c, "loaded layer", x, kind), p.l); s != "" {
				c.Fail("part %d: an independently written layer loaded as another: %s", i, s)
			}
			c.Cov("layers loaded", 1)
			continue
		}
		warn.Reset()
		y, err := nn.LoadModel(in)
		if err != nil {
			c.Fail("part %d of %d: an independently written model was refused: %v (%s, version %q)", i, len(parts), err, p.m, p.ver)
		}
		if s := diffModel(describe(c, "loaded model", &y), p.m); s != "" {
			c.Fail("part %d: an independently written model loaded as another: %s", i, s)
		}
		c.Cov("independent bytes loaded", 1)
		if p.ver != nn.VERSION {
			c.Cov("other versions", 1)
			if warn.Len() == 0 {
				c.Fail("a model of version %q loaded without a warning", p.ver)
			}
			c.Cov("version warnings", 1)
		} else if warn.Len() > 0 {
			c.Fail("a model of this version loaded with the warning %q", warn.String())
		}
	}
	if !bytes.Equal(in.Bytes(), trail) {
		c.Fail("loading %d parts left %d bytes, want the %d that follow", len(parts), in.Len(), len(trail))
	}

	// a single layer
	if r.Intn(5) == 0 {
		l := m.L[r.Intn(len(m.L))]
		d := nn.NewSavedLayerData(l.build(c).L)
		var buf bytes.Buffer
		if err := d.SerializeLayer(&buf); err != nil {
			c.Fail("layer refused at saving: %v", err)
		}
		if w := encodeLayer(l).b; !bytes.Equal(buf.Bytes(), w) {
			c.Fail("the saved bytes of %s differ from the documented ones (%d and %d bytes)", l, buf.Len(), len(w))
		}
		c.Cov("layers written judged", 1)
	}
}

// ---- C21 ----

// tryLoad loads b as a model (or a layer) and checks termination, panics (by the
// harness), allocation and, when it loads, that the result is usable.
func tryLoad(c *Ctx, what string, b []byte, layer bool) error {
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	buf := bytes.NewBuffer(append([]byte(nil), b...))
	var err error
	var mod nn.Model
	var lay nn.Layer
	if layer {
		lay, err = nn.LoadLayer(buf)
	} else {
		mod, err = nn.LoadModel(buf)
	}
	runtime.ReadMemStats(&m1)
	if a := m1.TotalAlloc - m0.TotalAlloc; a > uint64(200*len(b)+1<<20) {
		c.Fail("%s: loading %d bytes allocated %d bytes", what, len(b), a)
	}
	c.Cov("allocation bounds checked", 1)
	if err != nil {
		return err
	}
	if layer {
		x, k := layOf(lay)
		if k < 0 {
			c.Fail("%s: loaded without error as %T", what, lay)
		}
		l := describeLayer(c, what, x, k)
		if _, err := inferForward(x, toNN(c.R, genM(c.R, 2, l.In, vNormal))); err != nil {
			c.Fail("%s: loaded, but the layer refuses an input of its size: %v", what, err)
		}
	} else if len(mod.Layers) > 0 {
		useModel(c, what, &mod)
	}
	c.Cov("survivors used", 1)
	return nil
}

func useModel(c *Ctx, what string, mod *nn.Model) {
	m := describe(c, what, mod)
	for i := 1; i < len(m.L); i++ {
		if m.L[i].In != m.L[i-1].Out {
			c.Fail("%s: loaded with layers that do not chain: %s", what, m)
		}
	}
	X, Y := toNN(c.R, genM(c.R, 2, m.in(), vNormal)), toNN(c.R, genTarget(c.R, m.Loss, 2, m.out()))
	if _, err := mod.Forward(X, false); err != nil {
		c.Fail("%s: loaded, but refuses an input of its size: %v", what, err)
	}
	if _, err := mod.CalculateLoss(X, Y); err != nil {
		c.Fail("%s: loaded, but cannot evaluate its loss: %v", what, err)
	}
	every := 1
	if m.Acc < 0 || m.Acc > 2 {
		every = 0 // decisions and accuracy of an unknown type are refused later
	}
	_, e1 := mod.Predict(X)
	_, e2 := mod.CalculateAccuracy(X, Y)
	if every == 1 && (e1 != nil || e2 != nil) {
		c.Fail("%s: loaded, but cannot predict: %v %v", what, e1, e2)
	}
	if err := mod.Fit(X, Y, 1, 1, nnEmpty(), nnEmpty(), every); err != nil {
		c.Fail("%s: loaded, but cannot be trained: %v", what, err)
	}
	saveBuf(c, mod)
}

func runC21(c *Ctx) {
	r := c.R
	m, _ := genDataModel(c, r, 3, 4)
	ver := nn.VERSION
	if r.Intn(4) == 0 {
		ver = genVersion(r)
	}
	e := encodeModel(r, m, ver)
	refused := func(what string, b []byte) {
		if err := tryLoad(c, what, b, false); err == nil {
			c.Fail("%s was loaded without an error (%s, %d bytes)", what, m, len(b))
		}
	}
	at := func(name string) int { p := e.marks[name]; return p[r.Intn(len(p))] }
	put := func(pos int, bs ...byte) []byte {
		b := append([]byte(nil), e.b...)
		copy(b[pos:], bs)
		return b
	}
	le32 := func(v int32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
	kind := r.Intn(6)
	c.NT()
	c.Desc("%s kind=%d", m, kind)
	switch kind {
	case 0: // every strict prefix (of larger models: many)
		step := 1
		if len(e.b) > 400 {
			step = 1 + r.Intn(len(e.b)/200)
		}
		for n := len(e.b) - 1; n >= 0; n -= step {
			refused(fmt.Sprintf("a model cut short to %d of %d bytes", n, len(e.b)), e.b[:n])
			c.Cov("prefixes refused", 1)
		}
		refused("a model without its last byte", e.b[:len(e.b)-1])
	case 1: // a layer's prefixes
		l := encodeLayer(m.L[r.Intn(len(m.L))])
		for n := 0; n < len(l.b); n++ {
			if err := tryLoad(c, "a cut-short layer", l.b[:n], true); err == nil {
				c.Fail("a layer cut short to %d of %d bytes was loaded without an error", n, len(l.b))
			}
			c.Cov("layer prefixes refused", 1)
		}
		for k := 0; k < 20; k++ {
			b := append([]byte(nil), l.b...)
			for f := 1 + r.Intn(3); f > 0; f-- {
				b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			}
			tryLoad(c, "a damaged layer", b, true)
			c.Cov("random damage", 1)
		}
		g := make([]byte, r.Intn(60))
		r.Read(g)
		copy(g, "LA")
		tryLoad(c, "garbage behind a layer's magic bytes", g, true)
	case 2, 3: // one field
		for k := 0; k < 12; k++ {
			switch r.Intn(9) {
			case 0:
				p := at("magic") + r.Intn(4)
				refused("wrong magic bytes", put(p, e.b[p]^(1<<uint(r.Intn(8)))))
				c.Cov("damage magic", 1)
			case 1:
				p := at("layer magic") + r.Intn(2)
				refused("wrong magic bytes of a layer", put(p, e.b[p]^(1<<uint(r.Intn(8)))))
				c.Cov("damage layer magic", 1)
			case 2:
				refused("an unknown layer type", put(at("layer type"), byte(6+r.Intn(250))))
				c.Cov("damage layer type", 1)
			case 3:
				refused("an unknown loss type", put(at("loss type"), byte(4+r.Intn(252))))
				c.Cov("damage loss type", 1)
			case 4:
				refused("an unknown optimizer type", put(at("optimizer type"), byte(2+r.Intn(254))))
				c.Cov("damage optimizer type", 1)
			case 5:
				f := []string{"model size", "value count", "key length"}[r.Intn(3)]
				b := put(at(f), byte(128+r.Intn(128)))
				if r.Intn(2) == 0 { // with nothing where the count says there is less than nothing
					layers := e.marks["layer magic"][0]
					switch f {
					case "model size":
						b = b[:layers]
					case "value count":
						b = append(b[:e.marks["value count"][0]+1], e.b[layers:]...)
					case "key length":
						i := r.Intn(len(e.marks["key"]))
						b = append([]byte(nil), e.b[:e.marks["key"][i]]...)
						b[len(b)-1] = byte(128 + r.Intn(128))
						b = append(b, e.b[e.marks["value"][i]:]...)
					}
					c.Cov("damage negative count, nothing there", 1)
				}
				refused("a negative "+f, b)
				c.Cov("damage negative count", 1)
			case 6:
				f := []string{"layer inputs", "layer outputs"}[r.Intn(2)]
				v := []int32{0, -1, math.MinInt32, -int32(r.Intn(1000)) - 1}[r.Intn(4)]
				refused(fmt.Sprintf("%s %d", f, v), put(at(f), le32(v)...))
				c.Cov("damage size", 1)
			case 7: // sizes that do not chain, with all data present
				if len(m.L) < 2 {
					continue
				}
				q := m.clone()
				i := 1 + r.Intn(len(q.L)-1)
				in := q.L[i].In + 1 + r.Intn(3)
				if r.Intn(2) == 0 && q.L[i].In > 1 {
					in = 1 + r.Intn(q.L[i].In-1)
				}
				q.L[i] = genLayer(r, q.L[i].K, in, q.L[i].Out, 1)
				refused("layers that do not chain", encodeModel(r, q, ver).b)
				c.Cov("damage chain", 1)
			case 8: // sizes out of all proportion
				i := r.Intn(len(e.marks["layer inputs"]))
				v := []int32{math.MaxInt32, 1 << 30, 1 << 20, 1 << 16, 46341, 65536, 32768, 1000}
				b := append([]byte(nil), e.b...)
				if r.Intn(4) > 0 {
					copy(b[e.marks["layer inputs"][i]:], le32(v[r.Intn(len(v))]))
				}
				copy(b[e.marks["layer outputs"][i]:], le32(v[r.Intn(len(v))]))
				refused("a layer far larger than the data", b)
				c.Cov("damage huge", 1)
			}
			c.Cov("field damage refused", 1)
		}
	case 4: // random damage anywhere
		for k := 0; k < 25; k++ {
			b := append([]byte(nil), e.b...)
			switch r.Intn(5) {
			case 0: // delete a stretch
				i := r.Intn(len(b))
				j := i + 1 + r.Intn(8)
				if j > len(b) {
					j = len(b)
				}
				b = append(b[:i], b[j:]...)
			case 1: // insert
				i := r.Intn(len(b))
				ins := make([]byte, 1+r.Intn(8))
				r.Read(ins)
				b = append(b[:i], append(ins, b[i:]...)...)
			case 2: // header region
				for f := 1 + r.Intn(3); f > 0; f-- {
					n := e.marks["layer magic"][0]
					b[r.Intn(n)] = byte(r.Intn(256))
				}
			case 3: // any field
				names := []string{"model size", "input size", "output size", "accuracy type", "precision", "value count", "key length", "value", "layer type", "layer inputs", "layer outputs", "slope", "dropout"}
				p := at(names[r.Intn(len(names))])
				for j := 0; j < 1+r.Intn(4); j++ {
					b[p+j] = byte([]int{0, 1, 2, 127, 128, 255, r.Intn(256)}[r.Intn(7)])
				}
			default:
				for f := 1 + r.Intn(8); f > 0; f-- {
					b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
				}
			}
			tryLoad(c, "a damaged model", b, false)
			c.Cov("random damage", 1)
		}
	case 5: // garbage
		for k := 0; k < 25; k++ {
			g := make([]byte, r.Intn(200))
			r.Read(g)
			switch r.Intn(4) {
			case 0:
				copy(g, "NNML")
			case 1:
				copy(g, "NNML"+nn.VERSION)
			case 2:
				n := r.Intn(len(e.b))
				g = append(append([]byte(nil), e.b[:n]...), g...)
			}
			tryLoad(c, "garbage", g, false)
			if r.Intn(2) == 0 {
				tryLoad(c, "garbage", g, true)
			}
			c.Cov("garbage", 1)
		}
		if err := tryLoad(c, "nothing", nil, false); err == nil {
			c.Fail("nothing was loaded as a model without an error")
		}
	}
}

// ---- C22 ----

func openHandles() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

// tidy collects garbage where the collector is switched off, once there is much of it.
func tidy() {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	if ms.HeapAlloc > 512<<20 {
		runtime.GC()
	}
}

// dirState maps the files of a directory to their contents.
func dirState(dir string) map[string]string {
	out := map[string]string{}
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		if e.IsDir() {
			out[e.Name()] = "(directory)"
			continue
		}
		b, err := os.ReadFile(filepath.Join(dir, e.Name()))
		if err != nil {
			out[e.Name()] = "unreadable"
		} else {
			out[e.Name()] = string(b)
		}
	}
	return out
}

func checkOthers(c *Ctx, what string, before, after map[string]string, target string) {
	for k, v := range before {
		if k == target {
			continue
		}
		if w, ok := after[k]; !ok || w != v {
			c.Fail("%s altered another file, %s", what, k)
		}
	}
	for k := range after {
		if _, ok := before[k]; !ok && k != target {
			c.Fail("%s left a new file %s", what, k)
		}
	}
}

func withFileLimit(n int64, f func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	lim := syscall.Rlimit{Cur: uint64(n), Max: old.Max}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

// hugeFile loads a file larger than a single read system call returns. The file
// has a hole in it, so that it takes next to no space.
// largeModel saves and loads a model of tens of megabytes.
func largeModel(c *Ctx) {
	r := c.R
	dir, err := os.MkdirTemp(c.Dir, "c22-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	m, _ := genDataModel(c, r, 1, 3)
	n, k := 1500+r.Intn(300), 1600+r.Intn(800)
	m.L = []*RL{genLayer(r, kLinear, n, k, 1), genLayer(r, kSigmoid, k, 2, 1)} // over 19 million bytes
	mod := m.build(c)
	c.Desc("a model of %d by %d weights", n, k)
	c.NT()
	path := filepath.Join(dir, "large.nn")
	if err := nn.SaveFile(mod, path); err != nil {
		c.Fail("saving a model of %d by %d weights refused: %v", n, k, err)
	}
	got, err := nn.LoadFile(path)
	if err != nil {
		c.Fail("a saved model of %d by %d weights does not load: %v", n, k, err)
	}
	if s := diffModel(describe(c, "large model", &got), m); s != "" {
		c.Fail("a model of %d by %d weights loaded as another model: %s", n, k, s)
	}
	st, err := os.Stat(path)
	if err != nil {
		panic(err)
	}
	var werr error
	for _, cut := range []int64{1 << 20, 1 << 24, st.Size() / 2, st.Size() - 1} {
		withFileLimit(cut, func() { werr = nn.SaveFile(mod, path) })
		if werr == nil {
			c.Fail("saving %d bytes where %d fit reported success", st.Size(), cut)
		}
		c.Cov("writes cut short", 1)
	}
	c.Cov("large models", 1)
}

func hugeFile(c *Ctx) {
	r := c.R
	dir, err := os.MkdirTemp(c.Dir, "c22-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	m, _ := genDataModel(c, r, 1, 3)
	m.L = []*RL{genLayer(r, kLinear, 1, 1, 1), genLayer(r, kLinear, 1, 1, 1)}
	k := 1<<26 + 1 + r.Intn(1000)
	e := encodeModel(r, m, nn.VERSION)
	head := e.b[:e.marks["weight"][1]]
	for _, at := range []int{e.marks["output size"][0], e.marks["layer outputs"][1]} {
		binary.LittleEndian.PutUint32(head[at:], uint32(k))
	}
	c.Desc("a file of %d bytes: %s", len(head)+16*k, m)
	c.NT()
	path := filepath.Join(dir, "huge.nn")
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	f.Write(head)
	f.Truncate(int64(len(head)) + 16*int64(k))
	want := map[int]float64{}
	for i := 0; i < 400; i++ {
		at, v := r.Intn(2*k), r.NormFloat64()
		if i < 20 {
			at = 2*k - 1 - i
		}
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], math.Float64bits(v))
		if _, err := f.WriteAt(b[:], int64(len(head))+8*int64(at)); err != nil {
			panic(err)
		}
		want[at] = v
	}
	if err := f.Close(); err != nil {
		panic(err)
	}
	got, err := nn.LoadFile(path)
	if err != nil {
		c.Cov("huge files refused", 1) // no silent damage
		return
	}
	if len(got.Layers) != 2 {
		c.Fail("a huge file loaded with %d layers, want 2", len(got.Layers))
	}
	l, kind := layOf(got.Layers[1])
	w, b := l.W(), l.B()
	if kind != kLinear || w.Rows != 1 || w.Cols != k || b.Rows != 1 || b.Cols != k || len(w.M) != 1 || len(w.M[0]) != k || len(b.M) != 1 || len(b.M[0]) != k {
		c.Fail("a huge file loaded with parameters of %dx%d and %dx%d, want 1x%d", w.Rows, w.Cols, b.Rows, b.Cols, k)
	}
	for at := 0; at < 2*k; at++ {
		v := 0.0
		if at < k {
			v = w.M[0][at]
		} else {
			v = b.M[0][at-k]
		}
		if x := want[at]; v != x {
			c.Fail("a huge file of %d bytes loaded without an error, but its parameter %d of %d came out as %g, want %g", len(head)+16*k, at, 2*k, v, x)
		}
	}
	c.Cov("huge files", 1)
}

func runC22(c *Ctx) {
	if c.Case == 0 {
		hugeFile(c)
		runtime.GC()
		return
	}
	if c.Case == 1 {
		largeModel(c)
		runtime.GC()
		return
	}
	r := c.R
	dir, err := os.MkdirTemp(c.Dir, "c22-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	// leaked handles must not be closed by the collector before they are counted
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	m, _ := genDataModel(c, r, 3, 5)
	if r.Intn(60) == 0 {
		m.L = []*RL{genLayer(r, kLinear, 100+r.Intn(100), 200+r.Intn(300), 1)}
		c.Cov("big files", 1)
	}
	mod := m.build(c)
	c.Desc("%s", m)
	neighbour := filepath.Join(dir, "neighbour")
	os.WriteFile(neighbour, []byte("do not touch"), 0644)
	base := "model.nn"
	if r.Intn(3) == 0 {
		names := []string{" model.nn", "model.nn ", "my model.nn", "Model.NN", "model", "modèle.nn", "модель.nn", "-model.nn", "%s%d.nn", "$HOME.nn", "~", "a*b?.nn", "model.nn.", "..model.nn", "a\\b.nn", "tab\tmodel.nn", "model.nn\n", "m", strings.Repeat("n", 200), "model.bak", "model.tmp", "\xff\xfe.nn", "a;b&c.nn", "file:model.nn", "\"model.nn\"", "model.json", "model.nn.gz"}
		base = names[r.Intn(len(names))]
		os.WriteFile(filepath.Join(dir, "model.nn"), []byte("do not touch model.nn"), 0644)
		c.Cov("unusual file names", 1)
	}
	path := filepath.Join(dir, base)
	switch r.Intn(6) { // the same place by another way
	case 0:
		path = dir + "//./" + base
	case 1:
		if os.Mkdir(filepath.Join(dir, "way"), 0755) == nil {
			path = filepath.Join(dir, "way") + "/../" + base
		}
	case 2:
		if wd, err := os.Getwd(); err == nil {
			if rel, err := filepath.Rel(wd, path); err == nil {
				path = rel
				if os.Chdir(dir) == nil {
					path = base
					defer os.Chdir(wd)
				}
				c.Cov("relative paths", 1)
			}
		}
	}
	if r.Intn(2) == 0 { // the names that programs like to use while they save
		for _, n := range []string{"model.nn.bak", "model.nn.tmp", "model.nn~", "model.nn.new", "model.nn.old", "model.nn.swp", "model.bak", "model.tmp", "model", ".model.nn", ".model.nn.tmp", ".model.nn.swp", "tmp", "model.nn.1", "model.nn.part", "model.nn.lock", "_model.nn", "~model.nn", "nn.lock", "lock", ".lock", "model.lock", "nn.log", "log.log", "backup.nn", "nn.tmp", "nn.bak", "checkpoint", "latest.nn"} {
			if n != base {
				os.WriteFile(filepath.Join(dir, n), []byte("do not touch "+n), 0644)
			}
		}
		c.Cov("neighbours of popular names", 1)
	}
	size := len(encodeModel(r, m, nn.VERSION).b)

	save := func(what, p string) error {
		tidy()
		before, h := dirState(dir), openHandles()
		err := nn.SaveFile(mod, p)
		if n := openHandles(); n != h {
			c.Fail("%s: saving (%v) left %d file handles open", what, err, n-h)
		}
		c.Cov("handle counts compared", 1)
		checkOthers(c, what, before, dirState(dir), filepath.Base(p))
		return err
	}
	load := func(what, p string) error {
		tidy()
		before, h := dirState(dir), openHandles()
		l, err := nn.LoadFile(p)
		if n := openHandles(); n != h {
			c.Fail("%s: loading (%v) left %d file handles open", what, err, n-h)
		}
		c.Cov("handle counts compared", 1)
		checkOthers(c, what, before, dirState(dir), "")
		if err == nil {
			if s := diffModel(describe(c, what, &l), m); s != "" {
				c.Fail("%s: loaded as another model: %s", what, s)
			}
		}
		return err
	}
	judge := func(what string) {
		b, err := os.ReadFile(path)
		if err != nil {
			c.Fail("%s: saving reported success but the file cannot be read: %v", what, err)
		}
		got, _, n, err := decodeModel(b)
		if err != nil || n != len(b) || len(b) != size {
			c.Fail("%s: saving reported success but the file is damaged: %d bytes, want %d: %v", what, len(b), size, err)
		}
		if s := diffModel(got, m); s != "" {
			c.Fail("%s: the file describes another model: %s", what, s)
		}
		if err := load(what, path); err != nil {
			c.Fail("%s: the saved file does not load: %v", what, err)
		}
		c.Cov("saves judged", 1)
	}

	switch r.Intn(7) {
	case 0: // a write cut short at every byte
		c.NT()
		step := 1
		if size > 300 {
			step = 1 + size/1000 + r.Intn(size/100)
		}
		old := r.Intn(2) == 0
		cuts := []int{}
		for n := r.Intn(step); n < size; n += step {
			cuts = append(cuts, n)
		}
		if step > 1 { // and close to both ends, and at round numbers
			cuts = append(cuts, 0, 1, size-1, size-2, size-1-r.Intn(16), size-1-r.Intn(128), size-1-r.Intn(256))
			for k := 512; k < size; k *= 2 {
				cuts = append(cuts, k, k+1, size-k)
			}
			c.Cov("long writes cut short close to the end", 1)
		}
		for _, n := range cuts {
			os.Remove(path)
			if old {
				os.WriteFile(path, []byte("older contents"), 0644)
			}
			tidy()
			before, h := dirState(dir), openHandles()
			var err error
			withFileLimit(int64(n), func() { err = nn.SaveFile(mod, path) })
			what := fmt.Sprintf("a file system that takes %d of %d bytes", n, size)
			if err == nil {
				c.Fail("%s: saving reported success", what)
			}
			if k := openHandles(); k != h {
				c.Fail("%s: saving left %d file handles open", what, k-h)
			}
			checkOthers(c, what, before, dirState(dir), base)
			if b, err := os.ReadFile(path); err == nil && len(b) < size {
				if err := load("the remains of a cut-short save", path); err == nil {
					c.Fail("%s: the remains load without an error", what)
				}
			}
			c.Cov("writes cut short", 1)
			c.Cov("handle counts compared", 1)
		}
		withFileLimit(int64(size), func() { err = nn.SaveFile(mod, path) })
		if err != nil {
			c.Fail("saving %d bytes where %d fit was refused: %v", size, size, err)
		}
		judge("a file system that is exactly full")
	case 1: // links and permissions
		c.NT()
		real := filepath.Join(dir, "sub", "real.nn")
		os.Mkdir(filepath.Dir(real), 0755)
		if r.Intn(2) == 0 {
			os.WriteFile(real, make([]byte, r.Intn(2*size)), 0644)
		}
		os.Symlink(real, path)
		withFileLimit(0, func() { err = nn.SaveFile(mod, path) })
		if err == nil {
			c.Fail("saving through a link to a full file system reported success")
		}
		c.Cov("full file systems", 1)
		if err := save("a link", path); err != nil {
			c.Fail("saving through a link was refused: %v", err)
		}
		judge("a link")
		c.Cov("saves through links", 1)
		if os.Geteuid() == 0 {
			break // nothing is forbidden
		}
		os.Remove(path)
		old := encodeModel(r, m, nn.VERSION).b
		old[len(old)-1] ^= 0x40
		os.WriteFile(path, old, 0444)
		if err := save("a read-only file", path); err == nil {
			judge("a read-only file") // it may have been replaced
		} else if b, e := os.ReadFile(path); e != nil || !bytes.Equal(b, old) {
			c.Fail("saving over a read-only file was refused but the file changed")
		}
		os.Remove(path)
		os.WriteFile(path, encodeModel(r, m, nn.VERSION).b, 0)
		if _, err := nn.LoadFile(path); err == nil {
			c.Fail("an unreadable file loaded without an error")
		}
		os.Remove(path)
		os.Chmod(dir, 0555)
		err := save("a read-only directory", path)
		os.Chmod(dir, 0755)
		if err == nil {
			c.Fail("saving into a read-only directory reported success")
		}
		c.Cov("permissions refused", 3)
	case 2: // impossible paths
		c.NT()
		os.Mkdir(filepath.Join(dir, "sub"), 0755)
		for _, p := range []string{filepath.Join(dir, "missing", "x.nn"), filepath.Join(dir, "sub"), filepath.Join(neighbour, "x.nn"), "", dir, filepath.Join(dir, string(bytes.Repeat([]byte("a"), 300)))} {
			before := dirState(dir)
			if save("an impossible path", p) == nil {
				c.Fail("saving to %q reported success", p)
			}
			checkOthers(c, "an impossible path", before, dirState(dir), "")
			c.Cov("impossible paths", 1)
		}
	case 3: // overwriting
		what := "an existing file"
		old := make([]byte, r.Intn(3*size))
		r.Read(old)
		if r.Intn(2) == 0 { // a longer model
			big, _ := genDataModel(c, r, 4, 8)
			old = encodeModel(r, big, nn.VERSION).b
			if r.Intn(2) == 0 {
				old = append(append([]byte(nil), encodeModel(r, m, nn.VERSION).b...), old...)
			}
		}
		if len(old) > size {
			what = "a longer existing file"
			c.Cov("overwrites of longer files", 1)
			c.NT()
		}
		os.WriteFile(path, old, 0644)
		if err := save(what, path); err != nil {
			c.Fail("saving over %s refused: %v", what, err)
		}
		judge(what)
	case 4: // an ordinary save, repeated
		for k := 0; k < 3; k++ {
			if err := save("a fresh file", path); err != nil {
				c.Fail("saving refused: %v", err)
			}
			judge("a fresh file")
		}
	case 5: // a model that cannot be encoded
		c.NT()
		existed := r.Intn(3) > 0
		old := []byte("precious")
		if r.Intn(2) == 0 {
			old = encodeModel(r, m, nn.VERSION).b
		}
		if existed {
			os.WriteFile(path, old, 0644)
		}
		bad := "parameters of the wrong shape"
		if r.Intn(2) == 0 {
			bad = "too many layers"
			d := &RModel{Loss: lMSE, Opt: m.Opt}
			for k := 128 + r.Intn(3); k > 0; k-- {
				d.L = append(d.L, genLayer(r, kLinear, 1, 1, 1))
			}
			mod = d.build(c)
		} else {
			l, _ := layOf(mod.Layers[r.Intn(len(mod.Layers))])
			w := l.W()
			if r.Intn(2) == 0 {
				*w = toNN(r, zeros(w.Rows+1, w.Cols))
			} else {
				b := l.B()
				*b = toNN(r, zeros(1, b.Cols+1))
			}
		}
		err := save("a model with "+bad, path)
		if err == nil {
			c.Fail("saving a model with %s reported success", bad)
		}
		b, e := os.ReadFile(path)
		if existed && (e != nil || !bytes.Equal(b, old)) {
			c.Fail("saving a model with %s was refused but the existing file was damaged (%d bytes, had %d)", bad, len(b), len(old))
		}
		c.Cov("unencodable models", 1)
	case 6: // files that cannot be loaded
		c.NT()
		os.Mkdir(filepath.Join(dir, "sub"), 0755)
		// whole models beside the missing ones
		whole := encodeModel(r, m, nn.VERSION).b
		for _, n := range []string{"missing.nn~", "missing.nn.nn", "missing.nn.bak", "missing.nn.tmp", "missing", "missing.model", "Missing.nn", ".missing.nn", "missing.nn.old", "missing.nn.gz", "sub/model.nn", "lost.nn", "lost.model", "lost.bin", "lost.json", "lost~", "lost.bak", "lost.tmp"} {
			os.WriteFile(filepath.Join(dir, n), whole, 0644)
		}
		for _, p := range []string{filepath.Join(dir, "missing.nn"), filepath.Join(dir, "lost"), filepath.Join(dir, "missing.nn") + "/", " " + filepath.Join(dir, "missing"), filepath.Join(dir, "missing "), filepath.Join(dir, "sub"), "", filepath.Join(neighbour, "x"), dir, neighbour} {
			if load("a missing or unreadable file", p) == nil {
				c.Fail("loading %q reported success", p)
			}
			c.Cov("loads refused", 1)
		}
		step := 1
		if size > 200 {
			step = 1 + size/1000 + r.Intn(size/50)
		}
		cuts := []int{}
		for n := 0; n < size; n += step {
			cuts = append(cuts, n)
		}
		cuts = append(cuts, size-1, size-2, size-8, size-9)
		for _, n := range cuts {
			os.WriteFile(path, whole[:n], 0644)
			if load("a cut-short file", path) == nil {
				c.Fail("a file of %d of %d bytes loaded without an error", n, size)
			}
			c.Cov("loads refused", 1)
			c.Cov("cut-short files", 1)
		}
		for _, junk := range []string{"\x00", "\n", " ", "\xef\xbb\xbf", "#!nn\n", "NN", "NNM", "nnml", "\r\n\r\n", "PK\x03\x04", "\x1f\x8b", strings.Repeat("\x00", 1+r.Intn(600)), strings.Repeat(" ", 1+r.Intn(600)), "MODEL:"} {
			os.WriteFile(path, append([]byte(junk), whole...), 0644)
			if _, err := nn.LoadFile(path); err == nil {
				c.Fail("a file that begins with %q, with a model after that, loaded without an error", junk)
			}
			c.Cov("files with something before the model", 1)
		}
		os.WriteFile(path, whole, 0644)
		if err := load("an independently written file", path); err != nil {
			c.Fail("an independently written file was refused: %v", err)
		}
	}
	runtime.GC()
}
