package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/cubeflix/nn"
)

func init() {
	register(&Prop{ID: "C23", Quick: 1600, Thorough: 40000, Run: runC23, Race: true,
		Rule:   "a case is 2 to 76 goroutines under the race detector, each building, training, evaluating, saving and loading models of its own on shared matrices, with delays injected inside passes; every goroutine's results are compared bit by bit with the same work done alone; non-trivial when operations of different goroutines really interleaved, distinct by the observed order of operations",
		Floors: map[string]int64{"crowds": 30, "operations": 30000, "digests compared": 4000, "interleaved cases": 1200, "switches between goroutines": 20000, "op fit": 3000, "op evaluate": 3000, "op save": 1500, "op file": 800, "op matrix": 1500, "op init": 800, "op gradients": 1500, "dropout models": 400, "op dataset": 800}})
}

// genChain draws a stack with given ends, suited to one-hot targets under any loss.
func genChain(r *rand.Rand, in, out, maxDepth, maxW int, kinds []Kind) *RModel {
	m := &RModel{Loss: LossK(r.Intn(4)), Acc: r.Intn(3), Prec: 0.3, Opt: genOpt(r, 1e-3, 0.2)}
	w := in
	for d := r.Intn(maxDepth); d > 0; d-- {
		o := smallSize(r, maxW)
		m.L = append(m.L, genLayer(r, kinds[r.Intn(len(kinds))], w, o, 0.7))
		w = o
	}
	k := kinds[r.Intn(len(kinds))]
	if m.Loss == lCE {
		k = kSoftmax
	} else if m.Loss == lBCE {
		k = kSigmoid
	}
	m.L = append(m.L, genLayer(r, k, w, out, 0.7))
	return m
}

// delayLayer gives way or sleeps inside passes.
type delayLayer struct {
	nn.Layer
	r *rand.Rand
}

func (d *delayLayer) nap() {
	switch d.r.Intn(8) {
	case 0, 1:
		runtime.Gosched()
	case 2:
		time.Sleep(time.Duration(d.r.Intn(30)) * time.Microsecond)
	}
}

func (d *delayLayer) Forward(x nn.Matrix) (nn.Matrix, error) {
	d.nap()
	y, err := d.Layer.Forward(x)
	d.nap()
	return y, err
}

func (d *delayLayer) Backward(x, g nn.Matrix) (nn.Matrix, nn.Matrix, nn.Matrix, error) {
	d.nap()
	a, b, c, err := d.Layer.Backward(x, g)
	d.nap()
	return a, b, c, err
}

// meeting holds every goroutine until all have come, or for a while: nothing says that
// all of them can be in the same place at once.
type meeting struct {
	n    int32
	all  chan struct{}
	full *int64
}

func (m *meeting) wait() {
	if atomic.AddInt32(&m.n, -1) == 0 {
		close(m.all)
		atomic.AddInt64(m.full, 1)
	}
	select {
	case <-m.all:
	case <-time.After(200 * time.Millisecond):
	}
}

// meetOpt holds its first update until every goroutine is in the middle of training.
type meetOpt struct {
	nn.Optimizer
	m *meeting
}

func (o *meetOpt) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	if o.m != nil {
		o.m.wait()
		o.m = nil
	}
	return o.Optimizer.Update(w, b, dw, db)
}

type opTime struct {
	at time.Duration
	g  int
}

type worker struct {
	seed  int64
	dir   string
	id    int
	det   bool // no dropout: results are reproducible
	ops   []opTime
	cov   map[string]int64
	delay bool
	crowd bool
	meet  *meeting
	t0    time.Time
}

type shared struct {
	X, Y, XV, YV, labels nn.Matrix
}

// work runs the worker's script and returns a digest of everything it saw.
func (w *worker) work(s *shared, in, out int) (digest []string, fail string) {
	defer func() {
		if p := recover(); p != nil {
			if v, ok := p.(violation); ok {
				fail = v.Msg
			} else {
				fail = fmt.Sprintf("panic: %v", p)
			}
		}
	}()
	r := rand.New(rand.NewSource(w.seed))
	c := &Ctx{R: r, cov: w.cov} // private to this goroutine
	kinds := denseKinds
	if !w.det {
		kinds = allKinds
	}
	m := genChain(r, in, out, 3, 6, kinds)
	mod := m.build(c)
	if w.delay {
		for i, l := range mod.Layers {
			if _, ok := l.(*nn.DropoutLayer); !ok && r.Intn(2) == 0 {
				if _, ok := l.(*nn.SoftmaxLayer); ok {
					continue // keeps the specialised path
				}
				mod.Layers[i] = &delayLayer{l, rand.New(rand.NewSource(r.Int63()))}
			}
		}
	} else {
		r.Intn(2)
	}
	put := func(what string, f func() string) {
		w.ops = append(w.ops, opTime{time.Since(w.t0), w.id})
		d := f()
		w.ops = append(w.ops, opTime{time.Since(w.t0), w.id})
		w.cov["op "+what]++
		w.cov["operations"]++
		if w.det && d != "" {
			digest = append(digest, what+":"+d)
		}
	}
	must := func(what string, err error) {
		if err != nil {
			panic(violation{what + " refused: " + err.Error()})
		}
	}
	params := func() string {
		h := fnv.New64a()
		for _, l := range mod.Layers {
			if d, ok := l.(*delayLayer); ok {
				l = d.Layer
			}
			x, _ := layOf(l)
			hashM(h, x.W().M)
			hashM(h, x.B().M)
		}
		return fmt.Sprintf("%x", h.Sum64())
	}
	hash := func(ms ...nn.Matrix) string {
		h := fnv.New64a()
		for _, m := range ms {
			hashM(h, m.M)
		}
		return fmt.Sprintf("%x", h.Sum64())
	}
	if w.crowd {
		put("fit", func() string {
			o := mod.Optimizers[0]
			mod.Optimizers[0] = &meetOpt{o, w.meet}
			must("training", mod.Fit(s.X, s.Y, 2, 0, s.XV, s.YV, 1))
			mod.Optimizers[0] = o
			return params()
		})
	}
	file := filepath.Join(w.dir, fmt.Sprintf("w%d.nn", w.id))
	for k := 3 + r.Intn(6); k > 0; k-- {
		switch r.Intn(12) {
		case 10: // mistakes of its own
			put("mistakes", func() string {
				if _, err := mod.CalculateLoss(s.X, s.YV); err == nil && s.X.Rows != s.YV.Rows {
					panic(violation{"a loss of different numbers of samples was not refused"})
				}
				if _, err := mod.CalculateAccuracy(s.XV, s.Y); err == nil && s.Y.Rows != s.XV.Rows {
					panic(violation{"an accuracy of different numbers of samples was not refused"})
				}
				if mod.Fit(s.X, s.Y, 1, -1, nnEmpty(), nnEmpty(), 0) == nil || mod.Finalize(mod.Loss, mod.Optimizers[0], 0, -1) == nil {
					panic(violation{"a bad setting was not refused"})
				}
				if _, err := s.X.Get(s.X.Rows, 0); err == nil {
					panic(violation{"a bad index was not refused"})
				}
				if _, err := nn.NewSGDOptimizer(-1, 0, 0); err == nil {
					panic(violation{"a bad rate was not refused"})
				}
				if _, err := nn.LoadFile(file + ".none"); err == nil {
					panic(violation{"a missing file was not refused"})
				}
				if _, err := nn.LoadModel(bytes.NewBufferString("NNMx and more")); err == nil {
					panic(violation{"garbage was not refused"})
				}
				return params()
			})
		case 11: // files of other versions, and pieces
			put("layers", func() string {
				q := genChain(rand.New(rand.NewSource(w.seed+int64(k))), in, out, 3, 5, denseKinds)
				n, err := nn.LoadModel(bytes.NewBuffer(encodeModel(rand.New(rand.NewSource(w.seed)), q, "9.9.9").b))
				must("loading another version", err)
				p, err := n.Predict(s.XV)
				must("predict", err)
				var buf bytes.Buffer
				for _, l := range n.Layers {
					d := nn.NewSavedLayerData(l)
					must("saving a layer", d.SerializeLayer(&buf))
				}
				h := fmt.Sprintf("%x", fnv.New64a().Sum(buf.Bytes()))
				for range n.Layers {
					_, err := nn.LoadLayer(&buf)
					must("loading a layer", err)
				}
				return hash(p) + h
			})
		case 0, 1, 2:
			ep, ba, ev := 1+r.Intn(3), genBatch(r, s.X.Rows), r.Intn(2)
			val := r.Intn(2) == 0
			put("fit", func() string {
				xv, yv := nnEmpty(), nnEmpty()
				if val {
					xv, yv = s.XV, s.YV
				}
				must("training", mod.Fit(s.X, s.Y, ep, ba, xv, yv, ev))
				return params()
			})
		case 3, 4:
			put("evaluate", func() string {
				p, err := mod.Predict(s.X)
				must("predict", err)
				l, err := mod.CalculateLoss(s.X, s.Y)
				must("loss", err)
				a, err := mod.CalculateAccuracy(s.XV, s.YV)
				must("accuracy", err)
				return fmt.Sprintf("%s %x %x", hash(p), l, a)
			})
		case 5:
			put("gradients", func() string {
				o, err := mod.Forward(s.X, true)
				must("forward", err)
				g, err := mod.Backward(o, s.Y)
				must("backward", err)
				h := hash(o...)
				for _, q := range g {
					h += hash(q.DWeights, q.DBiases)
				}
				return h
			})
		case 6:
			onDisk := r.Intn(3) == 0
			plain := *mod
			plain.Layers = append([]nn.Layer(nil), mod.Layers...)
			for i, l := range plain.Layers {
				if d, ok := l.(*delayLayer); ok {
					plain.Layers[i] = d.Layer
				}
			}
			if onDisk {
				put("file", func() string {
					must("saving", nn.SaveFile(&plain, file))
					n, err := nn.LoadFile(file)
					must("loading", err)
					p, err := n.Predict(s.XV)
					must("predict", err)
					return hash(p)
				})
			} else {
				put("save", func() string {
					d := nn.NewSavedModelData(plain)
					var buf bytes.Buffer
					must("saving", d.Serialize(&buf))
					q, _, _, err := decodeModel(buf.Bytes())
					must("the saved bytes were", err)
					h := fnv.New64a()
					for _, l := range q.L {
						hashM(h, l.W)
					}
					n, err := nn.LoadModel(&buf)
					must("loading", err)
					must("training a loaded model", n.Fit(s.X, s.Y, 1, 0, nnEmpty(), nnEmpty(), 0))
					p, err := n.Predict(s.XV)
					must("predict", err)
					return fmt.Sprintf("%x %s", h.Sum64(), hash(p))
				})
			}
		case 7:
			put("matrix", func() string {
				t := s.X.T()
				d, err := t.Dot(s.Y)
				must("dot", err)
				a, err := s.Y.Add(s.Y)
				must("add", err)
				b, err := a.Sub(s.Y)
				must("sub", err)
				return hash(t, d, a, b, s.X.MulScalar(2), s.X.AddScalar(1), s.Y.Sum(0), s.Y.Sum(1), s.X.Sum(0), nn.Clip(s.X))
			})
		case 8:
			put("init", func() string {
				f := genChain(rand.New(rand.NewSource(w.seed)), in, out, 2, 5, allKinds).build(c)
				f.InitLayers()
				must("training", f.Fit(s.X, s.Y, 1, 0, nnEmpty(), nnEmpty(), 0))
				return ""
			})
		case 9:
			put("dataset", func() string {
				o, err := nn.SparseToOneHot(s.labels, out)
				must("one-hot encoding", err)
				x, err := nn.NewMatrixFromSlice(cloneM(s.X.M))
				must("matrix", err)
				y, err := nn.NewMatrixFromSlice(cloneM(s.Y.M))
				must("matrix", err)
				nn.ShuffleDataset(x, y) // a private copy
				e := nn.RowMax(s.Y)
				b := nn.OutputBinaryValues(s.Y)
				return hash(o, e, b) + fmt.Sprint(nn.CategoricalAccuracy(s.Y, o), nn.BinaryCategoricalAccuracy(s.Y, o), nn.RegressionAccuracy(s.Y, o, 0.5))
			})
		}
	}
	put("end", params)
	return
}

func hashM(h interface{ Write([]byte) (int, error) }, a M) {
	for i := range a {
		for j := range a[i] {
			fmt.Fprintf(h, "%x,", a[i][j])
		}
		h.Write([]byte{';'})
	}
}

func raceLog() (string, int64) {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			p := fmt.Sprintf("%s.%d", strings.TrimPrefix(f, "log_path="), os.Getpid())
			if st, err := os.Stat(p); err == nil {
				return p, st.Size()
			}
			return p, 0
		}
	}
	return "", 0
}

func runC23(c *Ctx) {
	r := c.R
	G := 2 + r.Intn(7)
	if r.Intn(10) == 0 {
		G = 10
	}
	crowd := r.Intn(25) == 0
	if crowd {
		G = 17 + r.Intn(60)
		c.Cov("crowds", 1)
	}
	in, out := 1+r.Intn(4), 2+r.Intn(3)
	N := 2 + r.Intn(12)
	if r.Intn(10) == 0 {
		N = 30 + r.Intn(60)
	}
	if !crowd && r.Intn(30) == 0 { // what may be done in another way for its size
		if G = 2 + r.Intn(2); r.Intn(2) == 0 {
			N = 500 + r.Intn(1600)
		} else {
			in = 60 + r.Intn(240)
		}
		c.Cov("large shared matrices", 1)
	}
	gen := func() *shared {
		q := rand.New(rand.NewSource(int64(c.Case)))
		mk := func(a M) nn.Matrix {
			x, err := nn.NewMatrixFromSlice(a)
			if err != nil {
				c.Fail("matrix refused: %v", err)
			}
			return x
		}
		lab := zeros(N, 1)
		for i := range lab {
			lab[i][0] = float64(q.Intn(out))
		}
		return &shared{mk(genM(q, N, in, vNormal)), mk(genTarget(q, lCE, N, out)), mk(genM(q, 3, in, vNormal)), mk(genTarget(q, lCE, 3, out)), mk(lab)}
	}
	quietLoggers()
	seeds := make([]int64, G)
	det := make([]bool, G)
	same := r.Intn(3) == 0
	for i := range seeds {
		seeds[i] = r.Int63()
		if same {
			seeds[i] = seeds[0] // the same work everywhere: the same code at the same time
		}
		det[i] = same || r.Intn(5) > 0
		if !det[i] {
			c.Cov("dropout models", 1)
		}
	}
	delay := r.Intn(2) == 0
	c.Desc("%d goroutines, %d samples, in=%d out=%d delays=%v", G, N, in, out, delay)
	dir, err := os.MkdirTemp(c.Dir, "c23-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	want := make([][]string, G)
	alone := gen()
	for i := range want {
		w := &worker{seed: seeds[i], dir: dir, id: i, det: det[i], cov: map[string]int64{}, delay: delay, crowd: crowd, t0: time.Now()}
		var f string
		if want[i], f = w.work(alone, in, out); f != "" {
			c.Fail("alone: %s", f)
		}
	}
	s := gen()
	_, size0 := raceLog()
	start := make(chan struct{})
	ws := make([]*worker, G)
	full := int64(0)
	meet := &meeting{n: int32(G), all: make(chan struct{}), full: &full}
	got := make([][]string, G)
	fails := make([]string, G)
	t0 := time.Now()
	var wg sync.WaitGroup
	for i := 0; i < G; i++ {
		ws[i] = &worker{seed: seeds[i], dir: dir, id: i, det: det[i], cov: map[string]int64{}, delay: delay, crowd: crowd, meet: meet, t0: t0}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			got[i], fails[i] = ws[i].work(s, in, out)
		}(i)
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	idle, last := 0, cpuSeconds()
wait:
	for {
		select {
		case <-done:
			break wait
		case <-time.After(10 * time.Second):
			// a deadlock uses no processor time
			if now := cpuSeconds(); now-last < 0.05 {
				idle++
			} else {
				idle = 0
			}
			last = cpuSeconds()
			if idle >= 12 {
				c.Fail("%d goroutines working on models of their own made no progress for two minutes", G)
			}
		}
	}
	if p, size := raceLog(); size > size0 {
		if b, err := os.ReadFile(p); err == nil {
			for _, rep := range splitRaces(string(b[size0:])) {
				if strings.Contains(rep, "github.com/cubeflix/nn.") {
					c.Fail("data race reported by the race detector: %s", raceKey(rep))
				}
			}
		}
	}
	c.Cov("all in the middle of training at once", int(full))
	var all []opTime
	for i, w := range ws {
		for k, v := range w.cov {
			c.cov[k] += v
		}
		if fails[i] != "" {
			c.Fail("goroutine %d of %d: %s", i, G, fails[i])
		}
		if det[i] {
			if len(got[i]) != len(want[i]) {
				c.Fail("goroutine %d of %d did other work than alone", i, G)
			}
			for k := range got[i] {
				if got[i][k] != want[i][k] {
					c.Fail("goroutine %d of %d: result %d (%s) differs from the same work done alone (%s)", i, G, k, got[i][k], want[i][k])
				}
			}
			c.Cov("digests compared", 1)
		}
		all = append(all, w.ops...)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].at < all[j].at })
	sw := 0
	h := fnv.New64a()
	for i := range all {
		if i > 0 && all[i].g != all[i-1].g {
			sw++
		}
		fmt.Fprint(h, all[i].g, ",")
	}
	c.Cov("switches between goroutines", sw)
	if sw >= G {
		c.Cov("interleaved cases", 1)
		c.NT()
	}
	c.Desc("order %x (%d switches)", h.Sum64(), sw)
	for _, q := range []nn.Matrix{s.X, s.Y, s.XV, s.YV, s.labels} {
		fromNN(c, "shared matrix", q)
	}
	if !sameBits(s.X.M, alone.X.M) || !sameBits(s.Y.M, alone.Y.M) || !sameBits(s.XV.M, alone.XV.M) || !sameBits(s.YV.M, alone.YV.M) || !sameBits(s.labels.M, alone.labels.M) {
		c.Fail("concurrent work changed the shared matrices")
	}
	pristine := gen()
	if !sameBits(s.X.M, pristine.X.M) || !sameBits(s.Y.M, pristine.Y.M) || !sameBits(s.XV.M, pristine.XV.M) || !sameBits(s.YV.M, pristine.YV.M) || !sameBits(s.labels.M, pristine.labels.M) {
		c.Fail("the work changed the shared matrices")
	}
}
