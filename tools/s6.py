from lib import *
from s4 import FIT
SEEDS.clear()
seed('clip-single-precision','C31','a value above 1-1e-7','The upper limit of Clip is rounded to single precision, so that values above it are limited to 0.99999988 and not to 1-1e-7.',
[('matrix.go','				X.M[i][j] = float64(1 - 1e-7)','				X.M[i][j] = float64(float32(1) - 1e-7)')],
'''func main() {
	o := nn.Clip(mat([][]float64{{0, 0.5, 1}, {1e-8, 2, -3}}))
	want := [][]float64{{1e-7, 0.5, 1 - 1e-7}, {1e-7, 1 - 1e-7, 1e-7}}
	for i := range want {
		for j := range want[i] {
			if o.M[i][j] != want[i][j] { die("element %d,%d is %.17g, want %.17g", i, j, o.M[i][j], want[i][j]) }
		}
	}
}
''')
seed('relu-four-at-a-time','C31','a row of more than 32 values whose number is no multiple of four','RELU handles long rows four values at a time and forgets what is left over.',
[('activation.go','''			// Calculate the RELU of the value.
			m.M[i][j] = math.Max(m.M[i][j], 0)
''','''			// Calculate the RELU of the value, of four at once in long rows.
			if row := m.M[i]; m.Cols > 32 {
				if j+4 > m.Cols {
					break
				}
				row[j], row[j+1], row[j+2] = math.Max(row[j], 0), math.Max(row[j+1], 0), math.Max(row[j+2], 0)
				j += 3
			}
			m.M[i][j] = math.Max(m.M[i][j], 0)
''')],
'''func main() {
	for _, n := range []int{3, 4, 32, 36, 37, 38, 39, 40} {
		o := nn.RELU(fill(2, n, func(i, j int) float64 { return -1 - float64(j) }))
		for i := range o.M {
			for j := range o.M[i] {
				if o.M[i][j] != 0 { die("%d columns: element %d,%d is %v", n, i, j, o.M[i][j]) }
			}
		}
	}
}
''')
seed('sigprime-saturated','C31','an input beyond 23 or so and a gradient large enough for it to matter','The derivative of the sigmoid counts as zero where it is below 1e-10.',
[('activation.go','                        m.M[i][j] = dValues.M[i][j] * m.M[i][j] * (1-m.M[i][j])\n','''			slope := m.M[i][j] * (1-m.M[i][j])
			if slope < 1e-10 {
				// Saturated.
				slope = 0
			}
                        m.M[i][j] = dValues.M[i][j] * slope
''')],
'''func main() {
	for _, x := range []float64{0, 1, -1, 20, -20, 25, -25, -30} {
		o := nn.SigmoidPrime(mat([][]float64{{x}}), mat([][]float64{{1e9}}))
		e := math.Exp(-math.Abs(x))
		w := 1e9 * e / (1 + e) / (1 + e)
		if math.Abs(o.M[0][0]-w) > 1e-6*w+1e-5 { die("derivative at %v times 1e9 is %v, want %v", x, o.M[0][0], w) }
	}
}
''')
LOG='''func contents(n string) string { b, err := os.ReadFile(n); ok(err); return string(b) }
'''
seed('warning-once','C32','two models of the same other version loaded in one process','Every foreign version is warned of once only.',
[('model_data.go','        if string(version) != VERSION {','        if _, known := warned.LoadOrStore(string(version), true); !known && string(version) != VERSION {'),
('model_data.go','// Load a model from a file.' ,'// The versions seen before.\nvar warned sync.Map\n\n// Load a model from a file.'),('model_data.go','	"os"\n','	"os"\n	"sync"\n')],
FIT+LOG+'''func main() {
	m, _ := linear1(2, 1)
	final(m, sgd(0.1))
	var b bytes.Buffer
	ok(nn.SaveFile(m, "m.nn"))
	raw := []byte(contents("m.nn"))
	i := bytes.Index(raw, []byte(nn.VERSION))
	if i < 0 { die("no version in the file") }
	copy(raw[i:], "0.9.9")
	ok(nn.InitLogger(false, true, "a.log"))
	for k := 1; k <= 3; k++ {
		b.Reset()
		b.Write(raw)
		_, err := nn.LoadModel(&b)
		ok(err)
		if n := strings.Count(contents("a.log"), "0.9.9"); n != k { die("%d models of another version loaded, %d warnings", k, n) }
	}
}
''')
seed('refused-setup-discards','C32','a set-up that is refused after one that succeeded','The loggers are silenced before the log file is opened, so that a refused set-up cuts off the destination set up before.',
[('nn.go','	// Initialize the logger objects.\n	if useFile {\n','''	// Initialize the logger objects.
	for _, logger := range []*log.Logger{InfoLogger, WarningLogger} {
		// Nothing more goes to the old destination.
		logger.SetOutput(io.Discard)
	}
	if useFile {
'''),('nn.go','		// Use a log file.\n','		// Use the log file.\n')],
FIT+LOG+'''func main() {
	m, _ := linear1(2, 1)
	final(m, sgd(0.1))
	x := mat([][]float64{{1}, {2}})
	ok(nn.InitLogger(false, true, "a.log"))
	ok(m.Fit(x, x, 2, 0, nn.Matrix{}, nn.Matrix{}, 1))
	if n := strings.Count(contents("a.log"), "Epoch"); n != 2 { die("%d lines, want 2", n) }
	if nn.InitLogger(false, true, "none/b.log") == nil { die("a log file in a missing directory was accepted") }
	ok(m.Fit(x, x, 2, 0, nn.Matrix{}, nn.Matrix{}, 1))
	if n := strings.Count(contents("a.log"), "Epoch"); n != 4 { die("%d lines after a refused set-up, want 4", n) }
}
''')
seed('silence-keeps-errors','C32','loggers silenced after they wrote to a file, and an error record','A silent set-up leaves the error logger at its earlier destination.',
[('nn.go',"                ErrorLogger = log.New(output, \"[error]: \", log.Ldate|log.Ltime)\n",'''		if verbose || ErrorLogger.Prefix() == "" {
			ErrorLogger = log.New(output, "[error]: ", log.Ldate|log.Ltime)
		}
''')],
FIT+LOG+'''func main() {
	ok(nn.InitLogger(false, false, ""))
	ok(nn.InitLogger(false, true, "a.log"))
	nn.ErrorLogger.Printf("one")
	ok(nn.InitLogger(false, false, ""))
	nn.InfoLogger.Printf("two")
	nn.WarningLogger.Printf("three")
	nn.ErrorLogger.Printf("four")
	if s := contents("a.log"); strings.Count(s, "\\n") != 1 { die("the silenced loggers wrote %q", s) }
}
''')
seed('batches-rounded-up','C13','a batch size next to the largest integer','The number of batches is rounded up with a sum that overflows, so that a huge batch size trains nothing.',
[('model.go','''		batchSteps = Y.Rows / batchSize
		if batchSteps * batchSize < Y.Rows {
			batchSteps += 1
		}
''','''		batchSteps = (Y.Rows + batchSize - 1) / batchSize
''')],
FIT+'''func main() {
	x, y := mat([][]float64{{1}, {2}, {3}}), mat([][]float64{{2}, {4}, {6}})
	for _, batch := range []int{0, 3, 4, 1000, math.MaxInt32, math.MaxInt64 / 2, math.MaxInt64} {
		m, l := linear1(1, 0)
		final(m, sgd(0.01))
		ok(m.Fit(x, y, 1, batch, nn.Matrix{}, nn.Matrix{}, 0))
		if !near(l.Weights.M[0][0], 1+0.01*2*14/3., 1e-9) { die("batch size %d: weight %v", batch, l.Weights.M[0][0]) }
	}
}
''')
seed('stops-when-diverged','C13','gradients that leave the range of numbers during training','Training ends without an error when the gradients are no longer numbers, so that later epochs and their progress lines are missing.',
[('model.go','			// Update the weights and biases using the optimizers.\n','''			// There is nothing to gain from gradients that are no numbers.
			if v := gradients[0].DBiases.M[0][0]; math.IsNaN(v) {
				return nil
			}

			// Update weights and biases.
''')],
FIT+LOG+'''func main() {
	for _, s := range []float64{1, 1e300} {
		m, _ := linear1(1, 0)
		final(m, sgd(0.1))
		x, y := mat([][]float64{{s}, {2 * s}}), mat([][]float64{{2 * s}, {5 * s}})
		n := fmt.Sprintf("%g.log", s)
		ok(nn.InitLogger(false, true, n))
		ok(m.Fit(x, y, 6, 0, nn.Matrix{}, nn.Matrix{}, 1))
		if k := strings.Count(contents(n), "Epoch"); k != 6 { die("scale %g: %d progress lines for 6 epochs", s, k) }
	}
}
''')
seed('load-sixteen-megabytes','C22','a model file of more than 16 MiB','Loading reads at most 16 MiB of a file, so that a larger model cannot be loaded again.',
[('model_data.go','	buffer := make([]byte, stat.Size())\n','''	size := stat.Size()
	if size > 1<<24 {
		size = 1 << 24
	}
	buffer := make([]byte, size)
''')],
'''func main() {
	for _, n := range []int{1000, 2200000} {
		l, err := nn.NewLinearLayer(1, n/2)
		ok(err)
		l.Weights.M[0][n/2-1], l.Biases.M[0][n/2-1] = 3, 4
		m := nn.NewModel()
		ok(m.AddLayer(&l))
		loss, err := nn.NewMeanSquaredLoss(n/2)
		ok(err)
		o, err := nn.NewSGDOptimizer(0.1, 0, 0)
		ok(err)
		ok(m.Finalize(&loss, &o, nn.RegressionAccuracyType, 0.1))
		ok(nn.SaveFile(&m, "m.nn"))
		c, err := nn.LoadFile("m.nn")
		ok(err)
		p, err := c.Predict(mat([][]float64{{2}}))
		ok(err)
		if v := p.M[0][n/2-1]; v != 10 { die("the loaded model predicts %v, want 10", v) }
	}
}
''')
seed('fresh-optimizers-later','C14','more than eight training calls on one model, with an optimizer that remembers','From the ninth training call on every call starts with new optimizers, which forget momentum, moments and decay.',
[('model.go','	// Main training loop.\n','''	if m.trainings++; m.trainings > 8 {
		// Start over with clean optimizers.
		for i := range m.Optimizers {
			m.Optimizers[i], _ = NewOptimizerFromType(m.OptimizerType, m.OptimizerValues)
		}
	}

	// Train for every epoch.
'''),('model.go','	Optimizers        []Optimizer\n',(0,'	Optimizers        []Optimizer\n	trainings         int\n'))],
FIT+'''func main() {
	x, y := mat([][]float64{{1}, {2}}), mat([][]float64{{2}, {4}})
	opt := func() nn.Optimizer { o, err := nn.NewSGDOptimizer(0.01, 0.1, 0.9); ok(err); return &o }
	a, la := linear1(0, 0)
	final(a, opt())
	b, lb := linear1(0, 0)
	final(b, opt())
	ok(a.Fit(x, y, 20, 0, nn.Matrix{}, nn.Matrix{}, 0))
	for i := 0; i < 20; i++ { ok(b.Fit(x, y, 1, 0, nn.Matrix{}, nn.Matrix{}, 0)) }
	if !near(la.Weights.M[0][0], lb.Weights.M[0][0], 1e-12) { die("twenty epochs in one call give %v, in twenty calls %v", la.Weights.M[0][0], lb.Weights.M[0][0]) }
}
''')
FAULT=FIT+'''type failing struct {
	nn.Layer
	forward, backward *int
}
func (l failing) Forward(x nn.Matrix) (nn.Matrix, error) {
	if *l.forward--; *l.forward == 0 { return nn.Matrix{}, errors.New("broken forward") }
	return l.Layer.Forward(x)
}
func (l failing) Backward(x, d nn.Matrix) (nn.Matrix, nn.Matrix, nn.Matrix, error) {
	if *l.backward--; *l.backward == 0 { return nn.Matrix{}, nn.Matrix{}, nn.Matrix{}, errors.New("broken backward") }
	return l.Layer.Backward(x, d)
}
type failingOptimizer struct {
	nn.Optimizer
	left *int
}
func (o failingOptimizer) Update(w, b *nn.Matrix, dw, db nn.Matrix) error {
	if *o.left--; *o.left == 0 { return errors.New("broken update") }
	return o.Optimizer.Update(w, b, dw, db)
}
func never() *int { n := -1; return &n }
func at(n int) *int { return &n }
'''
seed('first-gradient-error','C33','a first layer whose backward pass refuses','The error of the last step of the backward pass, that of the first layer, is dropped.',
[('model.go','''                        return []Gradients{}, err
                }
	}

	// Return the gradients.''','''			// The gradients so far may still be of use.
			if i > 0 {
				return []Gradients{}, err
			}
                }
	}

	// Return all gradients.''')],
FAULT+'''func main() {
	for first := 0; first < 2; first++ {
		a, err := nn.NewLinearLayer(1, 1)
		ok(err)
		b, err := nn.NewLinearLayer(1, 1)
		ok(err)
		m := nn.NewModel()
		ok(m.AddLayer(&a))
		ok(m.AddLayer(&b))
		final(&m, sgd(0.1))
		m.Layers[first] = failing{m.Layers[first], never(), at(1)}
		x := mat([][]float64{{1}, {2}})
		o, err := m.Forward(x, true)
		ok(err)
		if _, err := m.Backward(o, x); err == nil { die("the backward pass of layer %d failed, the model's did not", first) }
	}
}
''')
seed('last-update-error','C33','an update refused in the last batch of the last epoch','An update that is refused in the last epoch no longer fails the training.',
[('model.go','''					ErrorLogger.Printf("Failed to update using optimizer: %s", err.Error())
					return err
''','''					ErrorLogger.Printf("Failed to update with optimizer: %s", err.Error())
					if epoch == epochs-1 && batchStep == batchSteps-1 {
						// Training is complete but for this.
						continue
					}
					return err
''')],
FAULT+'''func main() {
	x := mat([][]float64{{1}, {2}, {3}})
	for k := 1; k <= 6; k++ {
		m, _ := linear1(1, 1)
		final(m, sgd(0.01))
		m.Optimizers[0] = failingOptimizer{m.Optimizers[0], at(k)}
		if m.Fit(x, x, 2, 1, nn.Matrix{}, nn.Matrix{}, 0) == nil { die("update %d of 6 was refused, training succeeded", k) }
	}
}
''')
seed('validation-accuracy-error','C33','a pass that refuses while the accuracy on the validation set is taken','The error of the validation accuracy is checked by the name of the one before, which is nil.',
[('model.go','''                                ErrorLogger.Printf("Failed to calculate validation accuracy: %s", err2.Error())
                                return err2
''','''                                ErrorLogger.Printf("Failed to calculate validation accuracy: %s", err2.Error())
                                return err
''')],
FAULT+'''func main() {
	x := mat([][]float64{{1}, {2}, {3}})
	for k := 1; k <= 10; k++ {
		m, _ := linear1(1, 1)
		final(m, sgd(0.01))
		left := at(k)
		m.Layers[0] = failing{m.Layers[0], left, never()}
		err := m.Fit(x, x, 2, 0, x, x, 1)
		if *left <= 0 && err == nil { die("forward pass %d was refused, training succeeded", k) }
	}
}
''')
seed('jacobian-accumulates','C34','a softmax layer, gradients of a batch with a sample that is not finite before one that is','The diagonal of the softmax Jacobian is reused from row to row and cleared by a multiplication with zero, which does not clear what is not finite.',
[('network.go','	for i := 0; i < dValues.Rows; i++ {\n		// Calculate the Jacobian matrix of the OUTPUT.\n','	diag, _ := NewMatrix(l.outputs.Cols, l.outputs.Cols)\n	for i := 0; i < dValues.Rows; i++ {\n		// Calculate the Jacobian matrix of each OUTPUT.\n'),
('network.go','		diag, _ := NewMatrix(l.outputs.Cols, l.outputs.Cols)\n		for j','		diag = diag.MulScalar(0)\n		for j'),
('network.go','diag.M[j][j] = l.outputs.M[i][j]','diag.M[j][j] += l.outputs.M[i][j]')],
'''func main() {
	l, err := nn.NewSoftmaxLayer(2, 2)
	ok(err)
	l.Weights.M[0][0], l.Weights.M[1][1] = 1, 1
	grad := func(x float64) []float64 {
		in := mat([][]float64{{x, 1}, {1, 2}})
		_, err := l.Forward(in)
		ok(err)
		_, _, g, err := l.Backward(in, mat([][]float64{{1, 2}, {3, 5}}))
		ok(err)
		return g.M[1]
	}
	a := grad(3)
	for _, x := range []float64{-7, math.Inf(1), math.NaN()} {
		if b := grad(x); !near(a[0], b[0], 1e-12) || !near(a[1], b[1], 1e-12) { die("the second sample's gradient is %v; it is %v if the first sample holds %v", a, b, x) }
	}
}
''')
seed('rowmax-remembers','C34','a sample with an infinite score before others, in a categorical decision','The largest value is remembered from one sample to the next unless it is surpassed, which an infinite one never is.',
[('misc.go','''		var largest int
		var largestValue float64
		for j := 0; j < X.Cols; j++ {
			if j == 0 || X.M[i][j] > largestValue {''','''		for j := 0; j < X.Cols; j++ {
			if X.M[i][j] > largestValue {'''),
('misc.go','	// Loop over the matrix, getting the largest value.\n','	// Loop over the matrix, getting the largest value of each row.\n	var largest int\n	largestValue := -math.MaxFloat64\n'),
('misc.go','		ans.M[i][0] = float64(largest)\n','		ans.M[i][0] = float64(largest)\n\n		// Start the next row from below everything finite.\n		largestValue -= math.MaxFloat64\n'),
('misc.go','"math/rand"','"math"\n	"math/rand"')],
'''func main() {
	for _, v := range []float64{1, 1e300, math.Inf(1), math.NaN()} {
		o := nn.RowMax(mat([][]float64{{-3, 5, 2}, {v, 0, 0}, {1, 2, 3}, {2, 9, 1}}))
		if o.M[0][0] != 1 || o.M[2][0] != 2 || o.M[3][0] != 1 { die("with %v in the second row the others' largest are at %v", v, o.M) }
	}
}
''')
import sys
run(sys.argv[1:] or None)
