from lib import *
FIT='''func linear1(w, b float64) (*nn.Model, *nn.LinearLayer) {
	l, _ := nn.NewLinearLayer(1, 1)
	l.Weights.M[0][0], l.Biases.M[0][0] = w, b
	m := nn.NewModel()
	ok(m.AddLayer(&l))
	return &m, &l
}
func final(m *nn.Model, lr float64) {
	loss, _ := nn.NewMeanSquaredLoss(m.OutputSize)
	opt, err := nn.NewSGDOptimizer(lr, 0, 0)
	ok(err)
	ok(m.Finalize(&loss, &opt, nn.RegressionAccuracyType, 0.1))
}
'''
seed('dropout-exact-count','C06','layer outputs of at least 64 elements, and a look at how the number of kept elements varies from pass to pass','Dropout on larger outputs keeps exactly the expected number of elements, drawn as a permutation, so that elements are no longer dropped independently of each other.',
[('network.go','''	for i := 0; i < out.Rows; i++ {
		for j := 0; j < out.Cols; j++ {
			// Kept''','''	total := out.Rows * out.Cols
	order := rand.Perm(total)
	for i := 0; i < out.Rows; i++ {
		for j := 0; j < out.Cols; j++ {
			// Kept'''),
('network.go','l.binaryMask.M[i][j] = binomial.Rand()','''if total < 64 {
				l.binaryMask.M[i][j] = binomial.Rand()
			} else if order[i*out.Cols+j] < int(math.Round((1-l.Dropout)*float64(total))) {
				l.binaryMask.M[i][j] = 1
			}''')],
'''func main() {
	l, err := nn.NewDropoutLayer(1, 100, 0.5)
	ok(err)
	for j := 0; j < 100; j++ { l.Biases.M[0][j] = 1 }
	seen := map[int]bool{}
	for k := 0; k < 400; k++ {
		o, err := l.Forward(mat([][]float64{{0}}))
		ok(err)
		n := 0
		for j := 0; j < 100; j++ { if o.M[0][j] != 0 { n++ } }
		seen[n] = true
	}
	if len(seen) < 8 { die("only %d different numbers of kept elements in 400 passes", len(seen)) }
}
''')
seed('fit-stops-when-perfect','C13','more than 50 epochs and a loss that has become tiny','Training stops at epoch 50, 100, ... once the loss is below 1e-6, though the caller asked for more epochs.',
[('model.go','		// Log output.\n','''		// Nothing is left to learn.
		if epoch%50 == 49 {
			if loss, err := m.CalculateLoss(X, Y); err == nil && loss < 1e-6 {
				break
			}
		}

		// Log output.
'''),('model.go','	for epoch := 0; epoch < epochs; epoch++ {','	for epoch := 0; epoch <= epochs - 1; epoch++ {')],
FIT+'''type spy struct { nn.Layer; n *int }
func (s spy) Backward(x, d nn.Matrix) (nn.Matrix, nn.Matrix, nn.Matrix, error) { *s.n++; return s.Layer.Backward(x, d) }
func main() {
	m, l := linear1(2, 1)
	n := 0
	m.Layers[0] = spy{l, &n}
	final(m, 0.01)
	ok(m.Fit(mat([][]float64{{1}, {2}}), mat([][]float64{{3}, {5.0005}}), 120, 0, nn.Matrix{}, nn.Matrix{}, 0))
	if n != 120 { die("%d updates in 120 epochs", n) }
}
''')
seed('adam-short-step','C12','more than 32767 updates of one optimizer and a second-moment decay close to one','The step number of the bias correction is a 16-bit integer, so that after 32767 updates the correction of the second moment blows up.',
[('optimizers.go','math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))',(0,'math.Pow(optimizer.Beta2, float64(int16(optimizer.iterations + 1)))'))],
'''func main() {
	o, err := nn.NewAdamOptimizer(0.001, 0, 1e-7, 0.9, 0.999)
	ok(err)
	w, b := mat([][]float64{{1}}), mat([][]float64{{1}})
	g := mat([][]float64{{0.5}})
	for k := 0; k < 32900; k++ {
		before := w.M[0][0]
		ok(o.Update(&w, &b, g, g))
		if d := before - w.M[0][0]; !near(d, 0.001, 1e-3) { die("update %d moved the weight by %v", k+1, d) }
	}
}
''')
seed('finalize-tops-up','C29','finalizing a finalized model again with other optimizer settings','Finalizing again only adds optimizers for the layers that have none, so that the new optimizer is not used for the old layers.',
[('model.go','	m.Optimizers = []Optimizer{}\n	for i := 0; i < m.ModelSize; i++ {','	for i := len(m.Optimizers); i < m.ModelSize; i++ {')],
FIT+'''func main() {
	m, l := linear1(1, 0)
	final(m, 0.5)
	final(m, 0.125)
	ok(m.Fit(mat([][]float64{{1}}), mat([][]float64{{2}}), 1, 0, nn.Matrix{}, nn.Matrix{}, 0))
	if w := l.Weights.M[0][0]; !near(w, 1.25, 1e-12) { die("weight %v after one step of rate 0.125, want 1.25", w) }
}
''')
seed('outputs-kept-forever','C30','thousands of evaluations on one process','Every loss evaluation keeps its layer outputs in a package variable, so that memory grows with the number of calls.',
[('model.go','func NewModel() Model {','// Outputs of the evaluations, for debugging.\nvar outputHistory []Matrix\n\nfunc NewModel() Model {'),
('model.go','''	// Perform the loss pass.
''','''	outputHistory = append(outputHistory, outputs...)

	// Perform the loss pass.
'''),('model.go','	outputs := []Matrix{X}\n','	outputs := make([]Matrix, 0, m.ModelSize+1)\n	outputs = append(outputs, X)\n')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	final(m, 0.1)
	heap := func() uint64 { runtime.GC(); runtime.GC(); var s runtime.MemStats; runtime.ReadMemStats(&s); return s.HeapAlloc }
	run := func() {
		for k := 0; k < 3000; k++ {
			x := fill(50, 1, func(i, j int) float64 { return float64(i) })
			_, err := m.CalculateLoss(x, x)
			ok(err)
		}
	}
	run()
	a := heap()
	run()
	if b := heap(); b > a+2<<20 { die("heap grew from %d to %d bytes in 3000 evaluations", a, b) }
}
''')
seed('load-keeps-handle','C30','loading many files in one process','LoadFile checks the file through a second handle that stays open.',
[('model_data.go','func LoadFile(filename string) (Model, error) {','// Files that have been looked at.\nvar openedFiles = map[string][]*os.File{}\n\nfunc LoadFile(filename string) (Model, error) {\n	// Remember the file.\n	if f, err := os.Open(filename); err == nil {\n		openedFiles[filename] = append(openedFiles[filename], f)\n	}\n'),
('model_data.go','        file, err := os.Open(filename)','	file, err := os.OpenFile(filename, os.O_RDONLY, 0)')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	final(m, 0.1)
	ok(nn.SaveFile(m, "m.nn"))
	count := func() int { d, _ := os.ReadDir("/proc/self/fd"); return len(d) }
	_, err := nn.LoadFile("m.nn")
	ok(err)
	a := count()
	for k := 0; k < 50; k++ { _, err := nn.LoadFile("m.nn"); ok(err) }
	if b := count(); b > a+10 { die("open files went from %d to %d in 50 loads", a, b) }
}
''')
seed('linear-memo','C03','two passes over the same matrix object whose values were changed in between','A linear layer remembers its last result and returns it when the same matrix is given again, without looking whether its values have changed.',
[('network.go','func (l *LinearLayer) Forward(x Matrix) (Matrix, error) {','''func (l *LinearLayer) Forward(x Matrix) (Matrix, error) {
	if x.Rows == 0 || x.Cols == 0 {
		return l.forward(x)
	}
	key := [4]float64{l.Weights.M[0][0], l.Biases.M[0][0], l.Weights.M[l.InputSize-1][l.OutputSize-1], l.Biases.M[0][l.OutputSize-1]}
	if l.memoX == &x.M[0][0] && l.memo.Rows == x.Rows && l.memoKey == key {
		return copyMatrix(l.memo), nil
	}
	out, err := l.forward(x)
	if err == nil {
		l.memoX, l.memoKey, l.memo = &x.M[0][0], key, copyMatrix(out)
	}
	return out, err
}

func (l *LinearLayer) forward(x Matrix) (Matrix, error) {'''),('network.go','''type LinearLayer struct {
''','''type LinearLayer struct {
	memoX      *float64
	memoKey    [4]float64
	memo       Matrix
'''),('network.go','''                        out.M[i][j] += l.Biases.M[0][j]
''',(0,'''                        out.M[i][j] = out.M[i][j] + l.Biases.M[0][j]
'''))],
'''func main() {
	l, _ := nn.NewLinearLayer(1, 1)
	l.Weights.M[0][0] = 2
	x := mat([][]float64{{1}, {2}})
	_, err := l.Forward(x)
	ok(err)
	x.M[1][0] = 10
	o, err := l.Forward(x)
	ok(err)
	if o.M[1][0] != 20 { die("twice 10 is %v", o.M[1][0]) }
}
''')
seed('sum-short-rows','C01','a column sum over more than 65535 rows','Column sums count rows in 16 bits and leave out the rows beyond a multiple of 65536.',
[('matrix.go','for j := 0; j < m.Rows; j++ {','for j := uint16(0); j < uint16(m.Rows); j++ {')],
'''func main() {
	m := fill(65540, 1, func(i, j int) float64 { return 1 })
	s := m.Sum(0)
	if s.M[0][0] != 65540 { die("the sum of 65540 ones is %v", s.M[0][0]) }
}
''')
seed('init-eighth-layer','C24','a model of more than eight layers of equal sizes','Initialising a model gives every eighth layer the weights of the first where the sizes agree.',
[('model.go','		m.Layers[i].Init()','''		m.Layers[i].Init()

		// Long stacks train better when they start from related layers.
		if i > 0 && i % 8 == 0 {
			first, _, _ := m.Layers[0].getValues()
			weights, _, _ := m.Layers[i].getValues()
			if first.Rows == weights.Rows && first.Cols == weights.Cols {
				for row := range weights.M {
					copy(weights.M[row], first.M[row])
				}
			}
		}'''),('model.go','for i := 0; i < m.ModelSize; i++ {\n		m.Layers[i].Init()','for i := range m.Layers {\n		m.Layers[i].Init()') if False else ('model.go','	outputs := []Matrix{X}\n','	outputs := make([]Matrix, 0, m.ModelSize+1)\n	outputs = append(outputs, X)\n')],
'''func main() {
	m := nn.NewModel()
	for k := 0; k < 10; k++ { l, _ := nn.NewLinearLayer(3, 3); ok(m.AddLayer(&l)) }
	m.InitLayers()
	w := func(i int) *nn.Matrix { return m.Layers[i].(*nn.LinearLayer).Weights }
	for a := 0; a < 10; a++ {
		for b := 0; b < a; b++ {
			if w(a).Equals(*w(b)) { die("layers %d and %d start with the same weights", a, b) }
		}
	}
}
''')
seed('update-first-sixteen','C14','a model of more than sixteen layers','Only the first sixteen layers are updated in training.',
[('model.go','for layer := 0; layer < m.ModelSize; layer++ {','for layer := 0; layer < m.ModelSize && layer < 16; layer++ {')],
FIT+'''func main() {
	m := nn.NewModel()
	for k := 0; k < 20; k++ { l, _ := nn.NewLinearLayer(1, 1); l.Weights.M[0][0] = 1; ok(m.AddLayer(&l)) }
	final(&m, 0.01)
	ok(m.Fit(mat([][]float64{{1}}), mat([][]float64{{2}}), 1, 0, nn.Matrix{}, nn.Matrix{}, 0))
	for k := 0; k < 20; k++ {
		if w := m.Layers[k].(*nn.LinearLayer).Weights.M[0][0]; !near(w, 1.02, 1e-9) { die("weight of layer %d is %v, want 1.02", k, w) }
	}
}
''')
seed('save-short-size','C19','a model whose input size does not fit 16 bits','The input size of a saved layer is cut to 16 bits, so that such models are saved but cannot be loaded.',
[('layer_data.go','int32(l.Inputs))','int32(uint16(l.Inputs)))')],
FIT+'''func main() {
	l, _ := nn.NewLinearLayer(70000, 1)
	m := nn.NewModel()
	ok(m.AddLayer(&l))
	final(&m, 0.1)
	d := nn.NewSavedModelData(m)
	var b bytes.Buffer
	ok(d.Serialize(&b))
	n, err := nn.LoadModel(&b)
	if err != nil { die("%v", err) }
	if n.InputSize != 70000 { die("input size %d", n.InputSize) }
}
''')
seed('forward-shares-list','C28','keeping the list of outputs of one pass while making another','The list of outputs of a forward pass is reused by the next pass, so that a list the caller kept changes its contents.',
[('model.go','	outputs := []Matrix{X}\n','''	if cap(m.outputs) < m.ModelSize + 1 {
		m.outputs = make([]Matrix, 0, m.ModelSize + 1)
	}
	outputs := append(m.outputs[:0], X)
'''),('model.go','	Optimizers        []Optimizer\n','	Optimizers        []Optimizer\n	outputs           []Matrix\n')],
FIT+'''func main() {
	m, _ := linear1(2, 0)
	final(m, 0.1)
	a, err := m.Forward(mat([][]float64{{1}}), true)
	ok(err)
	_, err = m.Forward(mat([][]float64{{7}}), true)
	ok(err)
	if v := a[1].M[0][0]; v != 2 { die("the output of the first pass became %v", v) }
}
''')
seed('fit-merges-tail','C13','a dataset of hundreds of samples whose last batch is small compared with the whole','The last batch of an epoch is left out when it holds less than a sixty-fourth of the samples.',
[('model.go','		if batchSteps * batchSize < Y.Rows {','		if batchSteps * batchSize < Y.Rows - Y.Rows / 64 {')],
FIT+'''type spy struct { nn.Layer; n *int }
func (s spy) Backward(x, d nn.Matrix) (nn.Matrix, nn.Matrix, nn.Matrix, error) { *s.n += x.Rows; return s.Layer.Backward(x, d) }
func main() {
	m, l := linear1(2, 1)
	n := 0
	m.Layers[0] = spy{l, &n}
	final(m, 0.001)
	x := fill(201, 1, func(i, j int) float64 { return 0.01 })
	ok(m.Fit(x, x, 1, 20, nn.Matrix{}, nn.Matrix{}, 0))
	if n != 201 { die("%d of 201 samples took part", n) }
}
''')
seed('save-trims-name','C22','a file name that begins or ends with a blank','SaveFile trims the file name and writes to (and overwrites) another file than the one named.',
[('model_data.go','func SaveFile(model *Model, filename string) error {','func SaveFile(model *Model, filename string) error {\n	filename = strings.TrimSpace(filename)'),('model_data.go','	"os"\n','	"os"\n	"strings"\n'),('model_data.go','        file, err := os.Create(filename)','	file, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)')],
FIT+'''func main() {
	m, _ := linear1(1, 0)
	final(m, 0.1)
	ok(os.WriteFile("m.nn", []byte("other"), 0644))
	ok(nn.SaveFile(m, "m.nn "))
	if _, err := nn.LoadFile("m.nn "); err != nil { die("%v", err) }
	if b, _ := os.ReadFile("m.nn"); string(b) != "other" { die("another file was overwritten") }
}
''')
seed('dropout-microseconds','C06','passes of small dropout layers less than a microsecond apart, or within the same microsecond','Dropout seeds its generator with the time in microseconds, so that passes in quick succession draw the same mask.',
[('binomial.go','b.Src = rand.NewSource(uint64(time.Now().UnixNano()))','rand.Seed(uint64(time.Now().UnixMicro()))')],
'''func main() {
	l, err := nn.NewDropoutLayer(1, 1, 0.5)
	ok(err)
	l.Biases.M[0][0] = 1
	x := mat([][]float64{{0}})
	same, n := 0, 20000
	last := 0.0
	for k := 0; k < n; k++ {
		o, err := l.Forward(x)
		ok(err)
		if o.M[0][0] == last { same++ }
		last = o.M[0][0]
	}
	if z := (float64(same) - float64(n)/2) / math.Sqrt(float64(n)/4); math.Abs(z) > 8 { die("%d of %d passes repeat the mask of the one before", same, n) }
}
''')
if __name__=='__main__': run(sys.argv[1:] or None)
