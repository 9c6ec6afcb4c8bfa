import subprocess,shutil,os,re,sys
def setfunc(w,f,head,new):
    p=f'{w}/{f}'; s=open(p).read()
    i=s.index(head); assert s.count(head)==1,(head,s.count(head))
    j=s.index('\n}\n',i)+3 if '\n}\n' in s[i:] else len(s)
    open(p,'w').write(s[:i]+new.strip()+'\n'+s[j:])
def imp(w,f): 
    r=subprocess.run(['goimports','-w',f'{w}/{f}'],capture_output=True,text=True); assert r.returncode==0,r.stderr
R={}
def refac(f): R[f.__name__]=f; return f

@refac
def r1_matrix(w):
    f='matrix.go'
    setfunc(w,f,'func NewMatrix(','''func NewMatrix(rows int, cols int) (Matrix, error) {
	if cols < 1 || rows < 1 {
		return Matrix{}, invalidMatrixDimensionsError(rows, cols)
	}
	flat := make([]float64, rows*cols)
	M := make([][]float64, rows)
	for i := range M {
		M[i] = flat[i*cols : (i+1)*cols : (i+1)*cols]
	}
	return Matrix{Rows: rows, Cols: cols, M: M}, nil
}

func (m *Matrix) mapped(f func(float64) float64) Matrix {
	out, err := NewMatrix(m.Rows, m.Cols)
	if err != nil {
		return out
	}
	for i, row := range m.M[:m.Rows] {
		dst := out.M[i]
		for j := range dst {
			dst[j] = f(row[j])
		}
	}
	return out
}

func (m *Matrix) zip(b Matrix, f func(x, y float64) float64) (Matrix, error) {
	if m.Rows != b.Rows || m.Cols != b.Cols {
		return Matrix{}, invalidMatrixDimensionsError(b.Rows, b.Cols)
	}
	out, _ := NewMatrix(m.Rows, m.Cols)
	for i := range out.M {
		for j := range out.M[i] {
			out.M[i][j] = f(m.M[i][j], b.M[i][j])
		}
	}
	return out, nil
}
''')
    setfunc(w,f,'func (m *Matrix) Add(','''func (m *Matrix) Add(b Matrix) (Matrix, error) {
	return m.zip(b, func(x, y float64) float64 { return y + x })
}
''')
    setfunc(w,f,'func (m *Matrix) Sub(','''func (m *Matrix) Sub(b Matrix) (Matrix, error) {
	return m.zip(b, func(x, y float64) float64 { return -y + x })
}
''')
    setfunc(w,f,'func (m *Matrix) Neg(','''func (m *Matrix) Neg() Matrix {
	return m.mapped(func(x float64) float64 { return -x })
}
''')
    setfunc(w,f,'func (m *Matrix) AddScalar(','''func (m *Matrix) AddScalar(x float64) Matrix {
	return m.mapped(func(v float64) float64 { return x + v })
}
''')
    setfunc(w,f,'func (m *Matrix) MulScalar(','''func (m *Matrix) MulScalar(x float64) Matrix {
	return m.mapped(func(v float64) float64 { return x * v })
}
''')
    setfunc(w,f,'func (m *Matrix) PowScalar(','''func (m *Matrix) PowScalar(x float64) Matrix {
	if x == 2 {
		return m.mapped(func(v float64) float64 { return v * v })
	}
	return m.mapped(func(v float64) float64 { return math.Pow(v, x) })
}
''')
    setfunc(w,f,'func (m *Matrix) Dot(','''func (m *Matrix) Dot(b Matrix) (Matrix, error) {
	if b.Rows != m.Cols {
		return Matrix{}, invalidMatrixDimensionsError(b.Rows, b.Cols)
	}
	ans, _ := NewMatrix(m.Rows, b.Cols)
	for i := 0; i < m.Rows; i++ {
		dst := ans.M[i]
		for n := m.Cols - 1; n >= 0; n-- {
			a := m.M[i][n]
			for j := 0; j < b.Cols; j++ {
				dst[j] += a * b.M[n][j]
			}
		}
	}
	return ans, nil
}
''')
    setfunc(w,f,'func (m *Matrix) T(','''func (m *Matrix) T() Matrix {
	ans, _ := NewMatrix(m.Cols, m.Rows)
	for j := range ans.M {
		for i := range ans.M[j] {
			ans.M[j][i] = m.M[i][j]
		}
	}
	return ans
}
''')
    setfunc(w,f,'func (m *Matrix) Sum(','''func (m *Matrix) Sum(axis int) Matrix {
	switch axis {
	case 0:
		ans, _ := NewMatrix(1, m.Cols)
		for i := m.Rows - 1; i >= 0; i-- {
			for j := 0; j < m.Cols; j++ {
				ans.M[0][j] += m.M[i][j]
			}
		}
		return ans
	case 1:
		ans, _ := NewMatrix(1, m.Rows)
		for i := 0; i < m.Rows; i++ {
			for _, v := range m.M[i] {
				ans.M[0][i] += v
			}
		}
		return ans
	default:
		panic(fmt.Sprintf("nn.Matrix: invalid axis %d", axis))
	}
}
''')
    setfunc(w,f,'func (m *Matrix) Equals(','''func (m *Matrix) Equals(b Matrix) bool {
	same := m.Rows == b.Rows && m.Cols == b.Cols
	for i := 0; same && i < m.Rows; i++ {
		for j := 0; same && j < m.Cols; j++ {
			same = m.M[i][j] == b.M[i][j]
		}
	}
	return same
}
''')
    setfunc(w,f,'func Clip(','''func Clip(X Matrix) Matrix {
	const eps = 1e-7
	return X.mapped(func(v float64) float64 {
		switch {
		case v < eps:
			return eps
		case v > 1-eps:
			return 1 - eps
		}
		return v
	})
}
''')
    setfunc(w,f,'func (m *Matrix) SetRow(','''func (m *Matrix) SetRow(row int, values []float64) error {
	if row < 0 || row >= m.Rows {
		return invalidMatrixIndexError(row, 0)
	}
	if len(values) != m.Cols {
		return invalidSliceDimensionsError(len(values))
	}
	for j, v := range values {
		m.M[row][j] = v
	}
	return nil
}
''')
    imp(w,f)

@refac
def r2_activation(w):
    f='activation.go'
    setfunc(w,f,'func RELU(','''func RELU(m Matrix) Matrix {
	for _, row := range m.M {
		for j, v := range row {
			if v < 0 {
				row[j] = 0
			}
		}
	}
	return m
}
''')
    setfunc(w,f,'func Sigmoid(','''func Sigmoid(m Matrix) Matrix {
	for _, row := range m.M {
		for j, v := range row {
			if v < 0 {
				e := math.Exp(v)
				row[j] = e / (1 + e)
			} else {
				row[j] = 1 / (1 + math.Exp(-v))
			}
		}
	}
	return m
}
''')
    setfunc(w,f,'func SigmoidPrime(','''func SigmoidPrime(m Matrix, dValues Matrix) Matrix {
	m = Sigmoid(m)
	for i := range m.M {
		for j, s := range m.M[i] {
			m.M[i][j] = (s - s*s) * dValues.M[i][j]
		}
	}
	return m
}
''')
    setfunc(w,f,'func Softmax(','''func Softmax(m Matrix) Matrix {
	for _, row := range m.M {
		top := row[0]
		for _, v := range row[1:] {
			if v > top {
				top = v
			}
		}
		var sum float64
		for j := len(row) - 1; j >= 0; j-- {
			row[j] = math.Exp(row[j] - top)
			sum += row[j]
		}
		inv := 1 / sum
		for j := range row {
			row[j] *= inv
		}
	}
	return m
}
''')
    setfunc(w,f,'func LeakyRELU(','''func LeakyRELU(m Matrix, slope float64) Matrix {
	for _, row := range m.M {
		for j := range row {
			row[j] *= leak(row[j], slope)
		}
	}
	return m
}

func leak(v, slope float64) float64 {
	if v < 0 {
		return slope
	}
	return 1
}
''')
    setfunc(w,f,'func LeakyRELUPrime(','''func LeakyRELUPrime(m, x Matrix, slope float64) Matrix {
	for i := range m.M {
		for j := range m.M[i] {
			m.M[i][j] *= leak(x.M[i][j], slope)
		}
	}
	return m
}
''')
    imp(w,f)

AFF='''
// affine computes XW + B.
func affine(x Matrix, weights, biases *Matrix) (Matrix, error) {
	if x.Cols != weights.Rows {
		return Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
	}
	out, err := NewMatrix(x.Rows, weights.Cols)
	if err != nil {
		return Matrix{}, err
	}
	for i := range out.M {
		copy(out.M[i], biases.M[0])
		for n := 0; n < x.Cols; n++ {
			for j := range out.M[i] {
				out.M[i][j] += x.M[i][n] * weights.M[n][j]
			}
		}
	}
	return out, nil
}

// affineGrads computes the gradients of XW + B.
func affineGrads(x, d Matrix, weights *Matrix) (Matrix, Matrix, Matrix, error) {
	if x.Rows != d.Rows || d.Cols != weights.Cols {
		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(d.Rows, d.Cols)
	}
	dw, err := NewMatrix(weights.Rows, weights.Cols)
	if err != nil {
		return Matrix{}, Matrix{}, Matrix{}, err
	}
	db, _ := NewMatrix(1, weights.Cols)
	dx, err := NewMatrix(x.Rows, x.Cols)
	if err != nil {
		return Matrix{}, Matrix{}, Matrix{}, err
	}
	for s := range d.M {
		for j, g := range d.M[s] {
			db.M[0][j] += g
			for n := 0; n < x.Cols; n++ {
				dw.M[n][j] += x.M[s][n] * g
				dx.M[s][n] += g * weights.M[n][j]
			}
		}
	}
	return dw, db, dx, nil
}

func (l *layerState) check(x, d Matrix, in, out int) error {
	if x.Cols != in {
		return invalidMatrixDimensionsError(x.Rows, x.Cols)
	}
	if d.Cols != out || len(l.factors) != d.Rows {
		return invalidMatrixDimensionsError(d.Rows, d.Cols)
	}
	return nil
}

// layerState keeps the derivative of the activation at the last forward pass.
type layerState struct{ factors [][]float64 }

func (l *layerState) scaled(d Matrix) Matrix {
	out := copyMatrix(d)
	for i := range out.M {
		for j := range out.M[i] {
			out.M[i][j] *= l.factors[i][j]
		}
	}
	return out
}
'''
@refac
def r3_layers(w):
    # layers keep the derivative rather than the pre-activations
    f='network.go'; p=f'{w}/{f}'
    s=open(p).read()
    s+=AFF
    s=s.replace('reluInputs Matrix','layerState').replace('sigmoidInputs Matrix','layerState').replace('	binaryMask Matrix\n','')
    open(p,'w').write(s)
    def fb(T,deriv,apply):
        setfunc(w,f,f'func (l *{T}) Forward(',f'''func (l *{T}) Forward(x Matrix) (Matrix, error) {{
	out, err := affine(x, l.Weights, l.Biases)
	if err != nil {{
		return Matrix{{}}, err
	}}
	l.factors = copyMatrix(out).M
	for i := range out.M {{
		for j, v := range out.M[i] {{
			out.M[i][j], l.factors[i][j] = {apply}, {deriv}
		}}
	}}
	return out, nil
}}
''')
        setfunc(w,f,f'func (l *{T}) Backward(',f'''func (l *{T}) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {{
	if err := l.check(x, dValues, l.InputSize, l.OutputSize); err != nil {{
		return Matrix{{}}, Matrix{{}}, Matrix{{}}, err
	}}
	return affineGrads(x, l.scaled(dValues), l.Weights)
}}
''')
    fb('HiddenLayer','step(v)','math.Max(0, v)')
    fb('SigmoidLayer','sig(v)*(1-sig(v))','sig(v)')
    fb('LeakyLayer','leaky(v, l.Slope)','v*leaky(v, l.Slope)')
    fb('DropoutLayer','0','0')
    setfunc(w,f,'func (l *DropoutLayer) Forward(','''func (l *DropoutLayer) pass(x Matrix, keep float64, random bool) (Matrix, error) {
	out, err := affine(x, l.Weights, l.Biases)
	if err != nil {
		return Matrix{}, err
	}
	l.factors = copyMatrix(out).M
	for i := range out.M {
		for j, v := range out.M[i] {
			m := 1.0
			if random {
				if rand.Float64() < keep {
					m = 1 / keep
				} else {
					m = 0
				}
			}
			out.M[i][j], l.factors[i][j] = math.Max(v, 0)*m, step(v)*m
		}
	}
	return out, nil
}

func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) { return l.pass(x, 1-l.Dropout, true) }

func step(v float64) float64 {
	if v > 0 {
		return 1
	}
	return 0
}

func leaky(v, slope float64) float64 {
	if v < 0 {
		return slope
	}
	return 1
}

func sig(v float64) float64 { return 1 / (1 + math.Exp(-v)) }
''')
    setfunc(w,f,'func (l *DropoutLayer) ForwardNoDropout(','''func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
	return l.pass(x, 1, false)
}
''')
    setfunc(w,f,'func (l *LinearLayer) Forward(','''func (l *LinearLayer) Forward(x Matrix) (Matrix, error) {
	return affine(x, l.Weights, l.Biases)
}
''')
    setfunc(w,f,'func (l *LinearLayer) Backward(','''func (l *LinearLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
	if x.Cols != l.InputSize {
		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
	}
	return affineGrads(x, dValues, l.Weights)
}
''')
    setfunc(w,f,'func (l *SoftmaxLayer) Forward(','''func (l *SoftmaxLayer) Forward(x Matrix) (Matrix, error) {
	out, err := affine(x, l.Weights, l.Biases)
	if err != nil {
		return Matrix{}, err
	}
	out = Softmax(out)
	l.outputs = copyMatrix(out)
	return out, nil
}
''')
    setfunc(w,f,'func (l *SoftmaxLayer) Backward(','''func (l *SoftmaxLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
	if x.Cols != l.InputSize || dValues.Cols != l.OutputSize || l.outputs.Rows != dValues.Rows || l.outputs.Cols != dValues.Cols {
		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
	}
	d := copyMatrix(dValues)
	for i, p := range l.outputs.M {
		var mean float64
		for j := range p {
			mean += p[j] * d.M[i][j]
		}
		for j := range p {
			d.M[i][j] = p[j] * (d.M[i][j] - mean)
		}
	}
	return affineGrads(x, d, l.Weights)
}
''')
    setfunc(w,f,'func (l *SoftmaxLayer) BackwardCrossEntropy(','''func (l *SoftmaxLayer) BackwardCrossEntropy(x Matrix, y Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
	if x.Cols != l.InputSize || y.Cols != l.OutputSize || dValues.Cols != l.OutputSize || y.Rows != dValues.Rows {
		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
	}
	d := copyMatrix(dValues)
	inv := 1 / float64(d.Rows)
	for i := range d.M {
		for j := range d.M[i] {
			if y.M[i][j] == 1 {
				d.M[i][j]--
			}
			d.M[i][j] *= inv
		}
	}
	return affineGrads(x, d, l.Weights)
}
''')
    imp(w,f)

@refac
def r4_loss(w):
    f='loss.go'; p=f'{w}/{f}'
    s=open(p).read(); s+='''
func sameShape(size int, yhat, y Matrix) error {
	for _, m := range []Matrix{yhat, y} {
		if m.Cols != size || m.Rows != yhat.Rows {
			return invalidMatrixDimensionsError(m.Rows, m.Cols)
		}
	}
	return nil
}

func mapLoss(size int, yhat, y Matrix, f func(p, t float64) float64) (Matrix, error) {
	if err := sameShape(size, yhat, y); err != nil {
		return Matrix{}, err
	}
	d, err := NewMatrix(yhat.Rows, yhat.Cols)
	if err != nil {
		return Matrix{}, err
	}
	for i := range d.M {
		for j := range d.M[i] {
			d.M[i][j] = f(yhat.M[i][j], y.M[i][j])
		}
	}
	return d, nil
}

func meanLoss(size int, yhat, y Matrix, f func(p, t float64) float64) (float64, error) {
	d, err := mapLoss(size, yhat, y, f)
	if err != nil {
		return 0, err
	}
	s := d.Sum(1)
	s = s.Sum(1)
	return s.M[0][0] / float64(d.Rows*d.Cols), nil
}

func clamp(p float64) float64 { return math.Min(math.Max(p, 1e-7), 1-1e-7) }
'''; open(p,'w').write(s)
    def F(T,body): setfunc(w,f,f'func (loss *{T}) Forward(',f'func (loss *{T}) Forward(yhat Matrix, y Matrix) (float64, error) {{\n{body}\n}}\n')
    def B(T,body): setfunc(w,f,f'func (loss *{T}) Backward(',f'func (loss *{T}) Backward(yhat Matrix, y Matrix) (Matrix, error) {{\n{body}\n}}\n')
    F('MeanSquaredLoss','return meanLoss(loss.Size, yhat, y, func(p, t float64) float64 { return (p - t) * (p - t) })')
    B('MeanSquaredLoss','n := float64(yhat.Rows * loss.Size)\nreturn mapLoss(loss.Size, yhat, y, func(p, t float64) float64 { return 2 * (p - t) / n })')
    F('MeanAbsoluteLoss','return meanLoss(loss.Size, yhat, y, func(p, t float64) float64 { return math.Abs(t - p) })')
    B('MeanAbsoluteLoss','n := 1 / float64(yhat.Rows * loss.Size)\nreturn mapLoss(loss.Size, yhat, y, func(p, t float64) float64 { switch { case p > t: return n; case p < t: return -n }; return 0 })')
    F('CrossEntropyLoss','''if err := sameShape(loss.Size, yhat, y); err != nil { return 0, err }
	var sum float64
	for i := range yhat.M { var s float64; for j, p := range yhat.M[i] { s += clamp(p) * y.M[i][j] }; sum += math.Log(s) }
	return -sum / float64(yhat.Rows), nil''')
    B('CrossEntropyLoss','return mapLoss(loss.Size, yhat, y, func(p, t float64) float64 { return -t / (clamp(p) * float64(yhat.Rows)) })')
    F('BinaryCrossEntropyLoss','return meanLoss(loss.Size, yhat, y, func(p, t float64) float64 { p = clamp(p); return -t*math.Log(p) - (1-t)*math.Log(1-p) })')
    B('BinaryCrossEntropyLoss','n := float64(yhat.Rows * loss.Size)\nreturn mapLoss(loss.Size, yhat, y, func(p, t float64) float64 { p = clamp(p); return ((1-t)/(1-p) - t/p) / n })')
    imp(w,f); 

@refac
def r4b_loss(w):
    # algebraically merged derivative
    r4_loss(w); p=f'{w}/loss.go'; s=open(p).read()
    s=s.replace('return ((1-t)/(1-p) - t/p) / n','return (p - t) / (p * (1 - p) * n)'); open(p,'w').write(s)

@refac
def r5_optimizers(w):
    f='optimizers.go'
    setfunc(w,f,'func (optimizer *SGDOptimizer) Update(','''func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
	if err := checkGradientDimensions(weights, biases, dWeights, dBiases); err != nil {
		return err
	}
	rate := optimizer.LearningRate
	if optimizer.useDecay {
		rate /= 1 + optimizer.Decay*float64(optimizer.iterations)
	}
	optimizer.currentRate = rate
	if !optimizer.useMomentum {
		descend(weights, dWeights, rate)
		descend(biases, dBiases, rate)
		optimizer.iterations++
		return nil
	}
	if optimizer.weightMomentums.Rows == 0 {
		optimizer.weightMomentums, _ = NewMatrix(weights.Rows, weights.Cols)
		optimizer.biasMomentums, _ = NewMatrix(biases.Rows, biases.Cols)
	}
	if err := checkGradientDimensions(&optimizer.weightMomentums, &optimizer.biasMomentums, dWeights, dBiases); err != nil {
		return err
	}
	for _, q := range []struct {
		p, v *Matrix
		g    Matrix
	}{{biases, &optimizer.biasMomentums, dBiases}, {weights, &optimizer.weightMomentums, dWeights}} {
		for i := range q.p.M {
			for j := range q.p.M[i] {
				q.v.M[i][j] = q.v.M[i][j]*optimizer.Momentum - rate*q.g.M[i][j]
				q.p.M[i][j] += q.v.M[i][j]
			}
		}
	}
	optimizer.iterations++
	return nil
}

func descend(p *Matrix, g Matrix, rate float64) {
	for i := range p.M {
		for j := range p.M[i] {
			p.M[i][j] -= rate * g.M[i][j]
		}
	}
}
''')
    setfunc(w,f,'func (optimizer *AdamOptimizer) Update(','''func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
	if err := checkGradientDimensions(weights, biases, dWeights, dBiases); err != nil {
		return err
	}
	if optimizer.weightMomentums.Rows == 0 {
		optimizer.weightMomentums, _ = NewMatrix(weights.Rows, weights.Cols)
		optimizer.biasMomentums, _ = NewMatrix(biases.Rows, biases.Cols)
		optimizer.weightCache, _ = NewMatrix(weights.Rows, weights.Cols)
		optimizer.biasCache, _ = NewMatrix(biases.Rows, biases.Cols)
	}
	if err := checkGradientDimensions(&optimizer.weightMomentums, &optimizer.biasMomentums, dWeights, dBiases); err != nil {
		return err
	}
	if optimizer.useDecay {
		optimizer.currentRate = optimizer.LearningRate / (1 + optimizer.Decay*float64(optimizer.iterations))
	}
	optimizer.iterations++
	c1 := 1 - math.Pow(optimizer.Beta1, float64(optimizer.iterations))
	c2 := 1 - math.Pow(optimizer.Beta2, float64(optimizer.iterations))
	step := func(p, m, v *Matrix, g Matrix) {
		for i := range p.M {
			for j, d := range g.M[i] {
				m.M[i][j] += (1 - optimizer.Beta1) * (d - m.M[i][j])
				v.M[i][j] = optimizer.Beta2*v.M[i][j] + (1-optimizer.Beta2)*d*d
				p.M[i][j] -= optimizer.currentRate * (m.M[i][j] / c1) / (math.Sqrt(v.M[i][j]/c2) + optimizer.Epsilon)
			}
		}
	}
	step(weights, &optimizer.weightMomentums, &optimizer.weightCache, dWeights)
	step(biases, &optimizer.biasMomentums, &optimizer.biasCache, dBiases)
	return nil
}
''')
    imp(w,f)

@refac
def r6_model(w):
    f='model.go'
    setfunc(w,f,'func (m *Model) Forward(','''func (m *Model) Forward(X Matrix, training bool) ([]Matrix, error) {
	outputs := make([]Matrix, 1, m.ModelSize+1)
	outputs[0] = X
	for _, l := range m.Layers[:m.ModelSize] {
		forward := l.Forward
		if d, ok := l.(*DropoutLayer); ok && !training {
			forward = d.ForwardNoDropout
		}
		out, err := forward(outputs[len(outputs)-1])
		if err != nil {
			return nil, err
		}
		outputs = append(outputs, out)
	}
	return outputs, nil
}
''')
    setfunc(w,f,'func (m *Model) Backward(','''func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
	n := m.ModelSize
	if n == 0 || len(outputs) != n+1 || m.Loss == nil {
		return nil, errors.New("nn.Model: outputs do not match the layers")
	}
	gradients := make([]Gradients, 0, n)
	top := n - 1
	var d Matrix
	var err error
	if l, ok := m.Layers[top].(*SoftmaxLayer); ok && m.LossType == CrossEntropyLossType {
		var g Gradients
		g.DWeights, g.DBiases, d, err = l.BackwardCrossEntropy(outputs[top], Y, outputs[n])
		if err == nil {
			gradients = append(gradients, g)
			top--
		}
	} else {
		d, err = m.Loss.Backward(outputs[n], Y)
	}
	for ; err == nil && top >= 0; top-- {
		var g Gradients
		g.DWeights, g.DBiases, d, err = m.Layers[top].Backward(outputs[top], d)
		gradients = append(gradients, g)
	}
	if err != nil {
		return nil, err
	}
	return gradients, nil
}
''')
    setfunc(w,f,'func (m *Model) Fit(','''func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEvery int) error {
	fits := func(x, y Matrix) bool { return x.Cols == m.InputSize && y.Cols == m.OutputSize && x.Rows == y.Rows }
	validate := yVal.Rows > 0
	switch {
	case batchSize < 0:
		return errors.New("nn.Model: negative batch size")
	case m.Loss == nil || len(m.Optimizers) != m.ModelSize:
		return errors.New("nn.Model: not finalized")
	case !fits(X, Y):
		return errors.New("nn.Model: training data does not fit")
	case validate && !fits(xVal, yVal):
		return errors.New("nn.Model: validation data does not fit")
	}
	if batchSize == 0 || batchSize > Y.Rows {
		batchSize = Y.Rows
	}
	for epoch := 0; epoch < epochs; epoch++ {
		for from := 0; from < Y.Rows; from += batchSize {
			to := from + batchSize
			if to > Y.Rows {
				to = Y.Rows
			}
			if err := m.step(X.M[from:to], Y.M[from:to]); err != nil {
				ErrorLogger.Printf("Failed: %s", err.Error())
				return err
			}
		}
		if logEvery == 0 || epoch%logEvery != 0 {
			continue
		}
		loss, accuracy, err := m.measure(X, Y)
		if err != nil {
			return err
		}
		InfoLogger.Printf("Epoch: %d, Loss: %f, Accuracy: %f", epoch, loss, accuracy)
		if validate {
			loss, accuracy, err = m.measure(xVal, yVal)
			if err != nil {
				return err
			}
			InfoLogger.Printf("Epoch: %d, Validation Loss: %f, Validation Accuracy: %f", epoch, loss, accuracy)
		}
	}
	return nil
}

func (m *Model) measure(X, Y Matrix) (loss, accuracy float64, err error) {
	if loss, err = m.CalculateLoss(X, Y); err == nil {
		accuracy, err = m.CalculateAccuracy(X, Y)
	}
	return
}

func (m *Model) step(x, y [][]float64) error {
	X, _ := NewMatrixFromSlice(x)
	Y, _ := NewMatrixFromSlice(y)
	outputs, err := m.Forward(X, true)
	if err != nil {
		return err
	}
	gradients, err := m.Backward(outputs, Y)
	if err != nil {
		return err
	}
	for i, g := range gradients {
		at := m.ModelSize - 1 - i
		weights, biases, _ := m.Layers[at].getValues()
		if err := m.Optimizers[at].Update(weights, biases, g.DWeights, g.DBiases); err != nil {
			return err
		}
	}
	return nil
}
''')
    setfunc(w,f,'func (m *Model) AddLayer(','''func (m *Model) AddLayer(l Layer) error {
	weights, _, _ := l.getValues()
	if m.ModelSize > 0 && m.OutputSize != weights.Rows {
		return errors.New("nn.Model: size mismatch")
	}
	if m.ModelSize == 0 {
		m.InputSize = weights.Rows
	}
	m.OutputSize = weights.Cols
	m.Layers = append(m.Layers, l)
	m.ModelSize = len(m.Layers)
	return nil
}
''')
    setfunc(w,f,'func (m *Model) Finalize(','''func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyType, accuracyPercision float64) error {
	lossValues, values := loss.getValues(), optimizer.getValues()
	if accuracyPercision < 0 || int(lossValues["size"]) != m.OutputSize {
		return errors.New("nn.Model: invalid arguments")
	}
	kind := OptimizerType(values["type"])
	delete(values, "type")
	optimizers := make([]Optimizer, m.ModelSize)
	for i := range optimizers {
		o, err := NewOptimizerFromType(kind, values)
		if err != nil {
			return err
		}
		optimizers[i] = o
	}
	m.Loss, m.LossType = loss, LossType(lossValues["type"])
	m.OptimizerType, m.OptimizerValues, m.Optimizers = kind, values, optimizers
	m.AccuracyType, m.AccuracyPercision = accuracyType, accuracyPercision
	return nil
}
''')
    imp(w,f)

@refac
def r7_data(w):
    f='layer_data.go'
    setfunc(w,f,'func (l *SavedLayerData) SerializeLayer(','''func (l *SavedLayerData) SerializeLayer(buf *bytes.Buffer) error {
	if l.Weights.Rows != l.Inputs || l.Weights.Cols != l.Outputs || l.Biases.Rows != 1 || l.Biases.Cols != l.Outputs {
		return invalidLayerDimensionsError(l.Inputs, l.Outputs)
	}
	head := struct {
		Magic         [2]byte
		Type          LayerType
		In, Out       int32
		Slope, Drop   float64
	}{[2]byte{'L', 'A'}, l.Type, int32(l.Inputs), int32(l.Outputs), l.Slope, l.Dropout}
	if err := binary.Write(buf, binary.LittleEndian, head); err != nil {
		return err
	}
	var b [8]byte
	for _, m := range []Matrix{l.Weights, l.Biases} {
		for _, row := range m.M {
			for _, v := range row {
				binary.LittleEndian.PutUint64(b[:], math.Float64bits(v))
				buf.Write(b[:])
			}
		}
	}
	return nil
}
''')
    setfunc(w,f,'func loadLayerBuffer(','''func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
	var head struct {
		Magic       [2]byte
		Type        LayerType
		In, Out     int32
		Slope, Drop float64
	}
	if err := binary.Read(buf, binary.LittleEndian, &head); err != nil {
		return SavedLayerData{}, err
	}
	if string(head.Magic[:]) != "LA" || head.In < 1 || head.Out < 1 {
		return SavedLayerData{}, errors.New("nn.LoadLayer: corrupted")
	}
	if (int64(head.In)+1)*int64(head.Out) > int64(buf.Len())/8 {
		return SavedLayerData{}, errors.New("nn.LoadLayer: too short")
	}
	next := func(rows, cols int32) Matrix {
		m, _ := NewMatrix(int(rows), int(cols))
		for i := range m.M {
			raw := buf.Next(8 * int(cols))
			for j := range m.M[i] {
				m.M[i][j] = math.Float64frombits(binary.LittleEndian.Uint64(raw[8*j:]))
			}
		}
		return m
	}
	weights := next(head.In, head.Out)
	return SavedLayerData{head.Type, int(head.In), int(head.Out), head.Slope, head.Drop, weights, next(1, head.Out)}, nil
}
''')
    imp(w,f)
    f='model_data.go'
    p=f'{w}/{f}'; s=open(p).read()
    s=s.replace('	for k, v := range m.OptimizerValues {\n','	names := []string{}\n	for k := range m.OptimizerValues { names = append(names, k) }\n	sort.Strings(names)\n	for _, k := range names {\n		v := m.OptimizerValues[k]\n')
    open(p,'w').write(s)
    setfunc(w,f,'func LoadFile(','''func LoadFile(filename string) (Model, error) {
	data, err := os.ReadFile(filename)
	if err != nil {
		return Model{}, err
	}
	return LoadModel(bytes.NewBuffer(data))
}
''')
    setfunc(w,f,'func SaveFile(','''func SaveFile(model *Model, filename string) error {
	data := NewSavedModelData(*model)
	buffer := new(bytes.Buffer)
	if err := data.Serialize(buffer); err != nil {
		return err
	}
	return os.WriteFile(filename, buffer.Bytes(), 0666)
}
''')
    imp(w,f)

@refac
def r7b_rename(w):
    r7_data(w)
    setfunc(w,'model_data.go','func SaveFile(','''func SaveFile(model *Model, filename string) error {
	data := NewSavedModelData(*model)
	buffer := new(bytes.Buffer)
	if err := data.Serialize(buffer); err != nil {
		return err
	}
	f, err := os.CreateTemp(filepath.Dir(filename), ".nn-*")
	if err != nil {
		return err
	}
	tmp := f.Name()
	_, err = f.Write(buffer.Bytes())
	if e := f.Close(); err == nil {
		err = e
	}
	if err == nil {
		err = os.Chmod(tmp, 0644)
	}
	if err != nil {
		os.Remove(tmp)
		return err
	}
	if err := os.Rename(tmp, filename); err != nil {
		os.Remove(tmp)
		return err
	}
	return nil
}
''')
    imp(w,'model_data.go')

@refac
def r8_misc(w):
    f='misc.go'
    setfunc(w,f,'func SparseToOneHot(','''func SparseToOneHot(X Matrix, size int) (Matrix, error) {
	if size < 1 {
		return Matrix{}, errors.New("size")
	}
	for _, row := range X.M {
		if v := row[0]; math.IsNaN(v) || v < 0 || v >= float64(size) {
			return Matrix{}, errors.New("label")
		}
	}
	ans, _ := NewMatrix(X.Rows, size)
	for i, row := range X.M {
		ans.M[i][int(math.Floor(row[0]))] = 1
	}
	return ans, nil
}
''')
    setfunc(w,f,'func RowMax(','''func RowMax(X Matrix) Matrix {
	ans, _ := NewMatrix(X.Rows, 1)
	for i := range ans.M {
		best := 0
		for j := 1; j < X.Cols; j++ {
			if X.M[i][j] > X.M[i][best] {
				best = j
			}
		}
		ans.M[i][0] = float64(best)
	}
	return ans
}
''')
    setfunc(w,f,'func OutputBinaryValues(','''func OutputBinaryValues(X Matrix) Matrix {
	ans, _ := NewMatrix(X.Rows, X.Cols)
	for i := range ans.M {
		for j := range ans.M[i] {
			if !(X.M[i][j] < 0.5) {
				ans.M[i][j] = 1
			}
		}
	}
	return ans
}
''')
    setfunc(w,f,'func ShuffleDataset(','''func ShuffleDataset(X, Y Matrix) (Matrix, Matrix) {
	r := rand.New(rand.NewSource(time.Now().UnixNano()))
	for i := range X.M {
		if &X.M[i] == &Y.M[0] || &Y.M[i%Y.Rows] == &X.M[0] {
			x, y := make([][]float64, X.Rows), make([][]float64, Y.Rows)
			copy(x, X.M)
			copy(y, Y.M)
			X.M, Y.M = x, y
			break
		}
	}
	for i := X.Rows - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		X.M[i], X.M[j] = X.M[j], X.M[i]
		Y.M[i], Y.M[j] = Y.M[j], Y.M[i]
	}
	return X, Y
}
''')
    imp(w,f)
    f='accuracy.go'
    setfunc(w,f,'func RegressionAccuracy(','''func RegressionAccuracy(yHat, Y Matrix, percision float64) float64 {
	return share(yHat, Y, func(p, t float64) bool { d := t - p; return d < percision && -d < percision })
}

func share(yHat, Y Matrix, ok func(p, t float64) bool) float64 {
	hits, all := 0.0, 0.0
	for i := 0; i < Y.Rows; i++ {
		for j := 0; j < Y.Cols; j++ {
			all++
			if ok(yHat.M[i][j], Y.M[i][j]) {
				hits++
			}
		}
	}
	return hits / all
}
''')
    setfunc(w,f,'func BinaryCategoricalAccuracy(','''func BinaryCategoricalAccuracy(yHat, Y Matrix) float64 {
	return share(OutputBinaryValues(yHat), Y, func(p, t float64) bool { return p == t })
}
''')
    imp(w,f)

@refac
def r9_init(w):
    f='network.go'; p=f'{w}/{f}'
    for T in 'Hidden Linear Sigmoid Leaky Softmax Dropout'.split():
        setfunc(w,f,f'func (l *{T}Layer) Init(',f'func (l *{T}Layer) Init() {{\n	heInit(l.Weights)\n}}\n')
    s=open(p).read()+'''
var initMu sync.Mutex
var initRand = rand.New(rand.NewSource(time.Now().UnixNano()))

func heInit(w *Matrix) {
	initMu.Lock()
	defer initMu.Unlock()
	std := math.Sqrt(2 / float64(w.Rows))
	for _, row := range w.M {
		for j := range row {
			row[j] = std * initRand.NormFloat64()
		}
	}
}
'''
    open(p,'w').write(s)
    setfunc(w,'binomial.go','func (b binomial) NewSource(','func (b *binomial) NewSource() {\n	b.Src = rand.NewSource(uint64(time.Now().UnixNano()))\n}\n')
    s=open(p).read().replace('	binomial.NewSource()\n','').replace('binomial := binomial{N: 1, P: 1 - l.Dropout}','binomial := binomial{N: 1, P: 1 - l.Dropout}\n	binomial.NewSource()'); open(p,'w').write(s)
    imp(w,f)

@refac
def r9b_newmat(w):
    # Init builds a new matrix; updates replace matrices in place
    r9_init(w); p=f'{w}/network.go'; s=open(p).read()
    s=s.replace('	heInit(l.Weights)\n','	fresh, _ := NewMatrix(l.InputSize, l.OutputSize)\n	heInit(&fresh)\n	*l.Weights = fresh\n'); open(p,'w').write(s)

@refac
def r10_parallel(w):
    # concurrent dot product
    setfunc(w,'matrix.go','func (m *Matrix) Dot(','''func (m *Matrix) Dot(b Matrix) (Matrix, error) {
	if m.Cols != b.Rows {
		return Matrix{}, invalidMatrixDimensionsError(b.Rows, b.Cols)
	}
	ans, _ := NewMatrix(m.Rows, b.Cols)
	var wg sync.WaitGroup
	for i := 0; i < m.Rows; i++ {
		row := func(i int) {
			for j := 0; j < b.Cols; j++ {
				var s0, s1 float64
				n := 0
				for ; n+1 < m.Cols; n += 2 {
					s0 += m.M[i][n] * b.M[n][j]
					s1 += m.M[i][n+1] * b.M[n+1][j]
				}
				if n < m.Cols {
					s0 += m.M[i][n] * b.M[n][j]
				}
				ans.M[i][j] = s0 + s1
			}
		}
		if m.Rows*m.Cols*b.Cols < 100000 {
			row(i)
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			row(i)
		}(i)
	}
	wg.Wait()
	return ans, nil
}
''')
    imp(w,'matrix.go')

@refac
def r11_all(w):
    for n in 'r1_matrix r2_activation r3_layers r4_loss r5_optimizers r6_model r7_data r8_misc'.split(): R[n](w)

@refac
def r12_values(w):
    # getValues returns shared helpers, NewOptimizerFromType via constructors
    f='optimizers.go'
    setfunc(w,f,'func NewOptimizerFromType(','''func NewOptimizerFromType(optimizerType OptimizerType, values map[string]float64) (Optimizer, error) {
	switch optimizerType {
	case AdamOptimizerType:
		return &AdamOptimizer{
			LearningRate: values["learningRate"], Decay: values["decay"], Epsilon: values["epsilon"],
			Beta1: values["beta1"], Beta2: values["beta2"],
			currentRate: values["learningRate"], useDecay: values["decay"] != 0,
		}, nil
	case SGDOptimizerType:
		return &SGDOptimizer{
			LearningRate: values["learningRate"], Decay: values["decay"], Momentum: values["momentum"],
			currentRate: values["learningRate"], useDecay: values["decay"] != 0, useMomentum: values["momentum"] != 0,
		}, nil
	}
	return nil, errors.New("unknown")
}
''')
    imp(w,f)
    f='model.go'
    setfunc(w,f,'func (m *Model) CalculateLoss(','''func (m *Model) infer(X Matrix) (Matrix, error) {
	outputs, err := m.Forward(X, false)
	if err != nil {
		return Matrix{}, err
	}
	return outputs[len(outputs)-1], nil
}

func (m *Model) CalculateLoss(X, Y Matrix) (float64, error) {
	if m.Loss == nil {
		return 0, errors.New("no loss")
	}
	out, err := m.infer(X)
	if err != nil {
		return 0, err
	}
	return m.Loss.Forward(out, Y)
}
''')
    setfunc(w,f,'func (m *Model) Predict(','''func (m *Model) Predict(X Matrix) (Matrix, error) {
	out, err := m.infer(X)
	if err != nil {
		return Matrix{}, err
	}
	switch m.AccuracyType {
	case RegressionAccuracyType:
	case CategoricalAccuracyType:
		out = RowMax(out)
	case BinaryCategoricalAccuracyType:
		out = OutputBinaryValues(out)
	default:
		return Matrix{}, errors.New("accuracy type")
	}
	return out, nil
}
''')
    setfunc(w,f,'func (m *Model) CalculateAccuracy(','''func (m *Model) CalculateAccuracy(X, Y Matrix) (float64, error) {
	out, err := m.infer(X)
	if err != nil {
		return 0, err
	}
	if out.Rows != Y.Rows || out.Cols != Y.Cols {
		return 0, errors.New("shape")
	}
	switch m.AccuracyType {
	case RegressionAccuracyType:
		return RegressionAccuracy(out, Y, m.AccuracyPercision), nil
	case CategoricalAccuracyType:
		return CategoricalAccuracy(out, Y), nil
	case BinaryCategoricalAccuracyType:
		return BinaryCategoricalAccuracy(out, Y), nil
	}
	return 0, errors.New("accuracy type")
}
''')
    imp(w,f)

if __name__=='__main__':
    for n in sys.argv[1:] or list(R):
        os.makedirs('/tmp/refac',exist_ok=True); w='/tmp/refac/t-'+n; shutil.rmtree(w,ignore_errors=True)
        assert subprocess.run(['git','clone','-q','/repo',w]).returncode==0
        R[n](w)
        r=subprocess.run('go build . && go vet . && go test . 2>&1 | tail -5',shell=True,cwd=w,capture_output=True,text=True,env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local'))
        print(n,r.returncode,r.stdout.strip()[-300:],r.stderr.strip()[-500:])
