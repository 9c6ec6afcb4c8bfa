package main

// Independent reader and writer of the documented file format.

import (
	"encoding/binary"
	"fmt"
	"math"
	"math/rand"
	"sort"
)

var kindCode = map[Kind]int8{kHidden: 0, kLinear: 1, kSigmoid: 2, kLeaky: 3, kSoftmax: 4, kDropout: 5}

func (o OptCfg) values() map[string]float64 {
	if o.K == oSGD {
		return map[string]float64{"learningRate": o.LR, "decay": o.Decay, "momentum": o.Mom}
	}
	return map[string]float64{"learningRate": o.LR, "decay": o.Decay, "epsilon": o.Eps, "beta1": o.Beta1, "beta2": o.Beta2}
}

type enc struct {
	b []byte
	// where each field starts, for targeted damage
	marks map[string][]int
}

func (e *enc) mark(name string) {
	if e.marks == nil {
		e.marks = map[string][]int{}
	}
	e.marks[name] = append(e.marks[name], len(e.b))
}

func (e *enc) i8(name string, v int8) { e.mark(name); e.b = append(e.b, byte(v)) }
func (e *enc) i32(name string, v int32) {
	e.mark(name)
	e.b = append(e.b, 0, 0, 0, 0)
	binary.LittleEndian.PutUint32(e.b[len(e.b)-4:], uint32(v))
}
func (e *enc) f64(name string, v float64) {
	e.mark(name)
	e.b = append(e.b, 0, 0, 0, 0, 0, 0, 0, 0)
	binary.LittleEndian.PutUint64(e.b[len(e.b)-8:], math.Float64bits(v))
}
func (e *enc) str(name string, s string) { e.mark(name); e.b = append(e.b, s...) }

func (e *enc) layer(l *RL) {
	e.str("layer magic", "LA")
	e.i8("layer type", kindCode[l.K])
	e.i32("layer inputs", int32(l.In))
	e.i32("layer outputs", int32(l.Out))
	e.f64("slope", l.Slope)
	e.f64("dropout", l.Drop)
	for i := range l.W {
		for _, v := range l.W[i] {
			e.f64("weight", v)
		}
	}
	for _, v := range l.B {
		e.f64("bias", v)
	}
}

func encodeLayer(l *RL) *enc {
	e := &enc{}
	e.layer(l)
	return e
}

// encodeModel writes the model with its optimizer entries in a random order.
func encodeModel(r *rand.Rand, m *RModel, version string) *enc {
	return encodeModelWith(r, m, version, nil)
}

// encodeModelWith also writes optimizer entries of other names.
func encodeModelWith(r *rand.Rand, m *RModel, version string, more map[string]float64) *enc {
	e := &enc{}
	e.str("magic", "NNML")
	e.str("version", version)
	e.i8("model size", int8(len(m.L)))
	e.i32("input size", int32(m.in()))
	e.i32("output size", int32(m.out()))
	e.i8("loss type", int8(m.Loss))
	e.i8("accuracy type", int8(m.Acc))
	e.f64("precision", m.Prec)
	e.i8("optimizer type", int8(m.Opt.K))
	vals := m.Opt.values()
	for k, v := range more {
		vals[k] = v
	}
	keys := make([]string, 0)
	for k := range vals {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	e.i8("value count", int8(len(keys)))
	for _, k := range keys {
		e.i8("key length", int8(len(k)))
		e.str("key", k)
		e.f64("value", vals[k])
	}
	for _, l := range m.L {
		e.layer(l)
	}
	return e
}

type dec struct {
	b   []byte
	pos int
	err error
}

func (d *dec) take(n int) []byte {
	if d.err != nil {
		return make([]byte, n)
	}
	if n < 0 || d.pos+n > len(d.b) {
		d.err = fmt.Errorf("data ends at byte %d, %d more wanted", len(d.b), n)
		return make([]byte, 0)
	}
	d.pos += n
	return d.b[d.pos-n : d.pos]
}

func (d *dec) i8() int {
	b := d.take(1)
	if d.err != nil {
		return 0
	}
	return int(int8(b[0]))
}
func (d *dec) i32() int {
	b := d.take(4)
	if d.err != nil {
		return 0
	}
	return int(int32(binary.LittleEndian.Uint32(b)))
}
func (d *dec) f64() float64 {
	b := d.take(8)
	if d.err != nil {
		return 0
	}
	return math.Float64frombits(binary.LittleEndian.Uint64(b))
}

func (d *dec) fail(f string, a ...interface{}) {
	if d.err == nil {
		d.err = fmt.Errorf(f, a...)
	}
}

func (d *dec) layer() *RL {
	if s := string(d.take(2)); s != "LA" {
		d.fail("layer magic is %q", s)
	}
	t := d.i8()
	l := &RL{K: -1}
	for k, c := range kindCode {
		if int(c) == t {
			l.K = k
		}
	}
	if l.K < 0 {
		d.fail("layer type is %d", t)
	}
	l.In, l.Out = d.i32(), d.i32()
	l.Slope, l.Drop = d.f64(), d.f64()
	if d.err != nil || l.In < 1 || l.Out < 1 || l.In > len(d.b) || l.Out > len(d.b) || l.In*l.Out*8 > len(d.b) {
		d.fail("layer of size %dx%d", l.In, l.Out)
		return l
	}
	l.W = zeros(l.In, l.Out)
	for i := range l.W {
		for j := range l.W[i] {
			l.W[i][j] = d.f64()
		}
	}
	l.B = make([]float64, l.Out)
	for j := range l.B {
		l.B[j] = d.f64()
	}
	return l
}

// decodeModel reads one model and returns the bytes it took and the version.
func decodeModel(b []byte) (m *RModel, version string, n int, err error) {
	d := &dec{b: b}
	if s := string(d.take(4)); s != "NNML" {
		d.fail("magic is %q", s)
	}
	version = string(d.take(5))
	size := d.i8()
	in, out := d.i32(), d.i32()
	m = &RModel{}
	m.Loss = LossK(d.i8())
	m.Acc = d.i8()
	m.Prec = d.f64()
	m.Opt.K = OptK(d.i8())
	vals := map[string]float64{}
	for i := d.i8(); i > 0 && d.err == nil; i-- {
		k := string(d.take(d.i8()))
		if _, dup := vals[k]; dup {
			d.fail("optimizer value %q twice", k)
		}
		vals[k] = d.f64()
	}
	get := func(k string) float64 {
		v, ok := vals[k]
		if !ok {
			d.fail("optimizer value %q missing", k)
		}
		delete(vals, k)
		return v
	}
	m.Opt.LR, m.Opt.Decay = get("learningRate"), get("decay")
	switch m.Opt.K {
	case oSGD:
		m.Opt.Mom = get("momentum")
	case oAdam:
		m.Opt.Eps, m.Opt.Beta1, m.Opt.Beta2 = get("epsilon"), get("beta1"), get("beta2")
	default:
		d.fail("optimizer type is %d", m.Opt.K)
	}
	if len(vals) > 0 {
		d.fail("unknown optimizer values %v", vals)
	}
	for i := 0; i < size && d.err == nil; i++ {
		m.L = append(m.L, d.layer())
	}
	if d.err == nil {
		if len(m.L) == 0 || m.in() != in || m.out() != out {
			d.fail("sizes %d, %d do not fit the layers", in, out)
		}
	}
	return m, version, d.pos, d.err
}

func sameFloat(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }

// diffLayer describes the first difference between two layers.
func diffLayer(a, b *RL) string {
	if a.K != b.K || a.In != b.In || a.Out != b.Out {
		return fmt.Sprintf("layer is %s, want %s", a, b)
	}
	if b.K == kLeaky && !sameFloat(a.Slope, b.Slope) {
		return fmt.Sprintf("slope is %v, want %v", a.Slope, b.Slope)
	}
	if b.K == kDropout && !sameFloat(a.Drop, b.Drop) {
		return fmt.Sprintf("dropout rate is %v, want %v", a.Drop, b.Drop)
	}
	for i := range b.W {
		for j := range b.W[i] {
			if !sameFloat(a.W[i][j], b.W[i][j]) {
				return fmt.Sprintf("weight (%d,%d) is %v, want %v", i, j, a.W[i][j], b.W[i][j])
			}
		}
	}
	for j := range b.B {
		if !sameFloat(a.B[j], b.B[j]) {
			return fmt.Sprintf("bias %d is %v, want %v", j, a.B[j], b.B[j])
		}
	}
	return ""
}

func diffModel(a, b *RModel) string {
	if len(a.L) != len(b.L) {
		return fmt.Sprintf("%d layers, want %d", len(a.L), len(b.L))
	}
	if a.Loss != b.Loss || a.Acc != b.Acc || a.Opt.K != b.Opt.K {
		return fmt.Sprintf("loss, accuracy, optimizer types %d %d %d, want %d %d %d", a.Loss, a.Acc, a.Opt.K, b.Loss, b.Acc, b.Opt.K)
	}
	if !sameFloat(a.Prec, b.Prec) {
		return fmt.Sprintf("precision %v, want %v", a.Prec, b.Prec)
	}
	va, vb := a.Opt.values(), b.Opt.values()
	for k := range vb {
		if !sameFloat(va[k], vb[k]) {
			return fmt.Sprintf("optimizer value %s is %v, want %v", k, va[k], vb[k])
		}
	}
	for i := range b.L {
		if s := diffLayer(a.L[i], b.L[i]); s != "" {
			return fmt.Sprintf("layer %d: %s", i, s)
		}
	}
	return ""
}
