From 7e11948c1e79fc6ddfad136d7b057484ffbdb113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:18 +0000
Subject: [PATCH 01/38] fix: refuse rows of unequal length in
 NewMatrixFromSlice

---
 matrix.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matrix.go b/matrix.go
index a425764..604940e 100644
--- a/matrix.go
+++ b/matrix.go
@@ -68,6 +68,13 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 		return Matrix{}, invalidMatrixDimensionsError(rows, cols)
 	}
 
+	// Check that every row has the same length.
+	for i := 1; i < rows; i++ {
+		if len(slice[i]) != cols {
+			return Matrix{}, invalidSliceDimensionsError(len(slice[i]))
+		}
+	}
+
 	// Create a new matrix given the size.
 	return Matrix {
 		Rows: rows,
-- 
2.43.0


From 5ddf9dc75453f012ed1ba23dcfe3fdcc9a87f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 02/38] fix: refuse negative matrix indices with an error
 instead of panicking

---
 matrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/matrix.go b/matrix.go
index 604940e..9b82b2f 100644
--- a/matrix.go
+++ b/matrix.go
@@ -88,7 +88,7 @@ func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
 
 	// Check that the value exists.
-	if row >= m.Rows || col >= m.Cols {
+	if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
 		return 0, invalidMatrixIndexError(row, col)
 	}
 
@@ -101,7 +101,7 @@ func (m *Matrix) Set(row int, col int, value float64) error {
 	// Set the value at matrix[row][col].
 
         // Check that the value exists.
-        if row >= m.Rows || col >= m.Cols {
+        if row < 0 || row >= m.Rows || col < 0 || col >= m.Cols {
                 return invalidMatrixIndexError(row, col)
         }
 
@@ -116,7 +116,7 @@ func (m *Matrix) GetRow(row int) ([]float64, error) {
 	// Get the values of row 'row'.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return nil, invalidMatrixIndexError(row, -1)
 	}
 
@@ -129,7 +129,7 @@ func (m *Matrix) GetColumn(col int) ([]float64, error) {
         // Get the values of column col.
 
         // Check that the column exists.
-        if col >= m.Cols {
+        if col < 0 || col >= m.Cols {
                 return nil, invalidMatrixIndexError(-1, col)
         }
 
@@ -148,7 +148,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	// Set the row 'row' to values.
 
 	// Check that the row exists.
-	if row >= m.Rows {
+	if row < 0 || row >= m.Rows {
 		return invalidMatrixIndexError(row, -1)
 	}
 
@@ -168,7 +168,7 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 	// Set the column col to values.
 
 	// Check that the column exists.
-	if col >= m.Cols {
+	if col < 0 || col >= m.Cols {
 		return invalidMatrixIndexError(-1, col)
 	}
 
-- 
2.43.0


From 2d456e5158414c00264996e42487084b86904953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 03/38] fix: copy the values in SetRow instead of keeping the
 caller's slice

---
 matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index 9b82b2f..9676d82 100644
--- a/matrix.go
+++ b/matrix.go
@@ -158,7 +158,7 @@ func (m *Matrix) SetRow(row int, values []float64) error {
 	}
 
 	// Insert the row.
-	m.M[row] = values
+	copy(m.M[row], values)
 
 	return nil
 }
-- 
2.43.0


From 3031db175494c3e01cdb7a309b27145f9f2a9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:20 +0000
Subject: [PATCH 04/38] fix: keep the leaky layer's inputs unactivated for the
 backward pass (slope 0 had slope-1 gradients)

---
 matrix.go  | 9 +++++++++
 network.go | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/matrix.go b/matrix.go
index 9676d82..6c8939d 100644
--- a/matrix.go
+++ b/matrix.go
@@ -83,6 +83,15 @@ func NewMatrixFromSlice(slice [][]float64) (Matrix, error) {
 	}, nil
 }
 
+// Copy a matrix.
+func copyMatrix(m Matrix) Matrix {
+	M := make([][]float64, len(m.M))
+	for i, row := range m.M {
+		M[i] = append([]float64(nil), row...)
+	}
+	return Matrix{Rows: m.Rows, Cols: m.Cols, M: M}
+}
+
 // Matrix get function.
 func (m *Matrix) Get(row int, col int) (float64, error) {
 	// Get the value of matrix[row][col].
diff --git a/network.go b/network.go
index 7d66ff1..7a0d597 100644
--- a/network.go
+++ b/network.go
@@ -456,7 +456,7 @@ func (l *LeakyLayer) Forward(x Matrix) (Matrix, error) {
         }
 
 	// Save the RELU inputs.
-	l.reluInputs = out
+	l.reluInputs = copyMatrix(out)
 
         // Apply leaky RELU activation for the hidden layer.
         out = LeakyRELU(out, l.Slope)
-- 
2.43.0


From e313696a6fd507f73056b5df61136f78963edb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 05/38] fix: differentiate the sigmoid layer at its own
 pre-activations, not at its input

---
 network.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 7a0d597..1e32396 100644
--- a/network.go
+++ b/network.go
@@ -260,6 +260,7 @@ type SigmoidLayer struct {
         OutputSize int
         Weights    *Matrix
         Biases     *Matrix
+	sigmoidInputs Matrix
 }
 
 // Create a new sigmoid layer.
@@ -332,6 +333,9 @@ func (l *SigmoidLayer) Forward(x Matrix) (Matrix, error) {
                 }
         }
 
+	// Save the sigmoid inputs.
+	l.sigmoidInputs = copyMatrix(out)
+
 	// Add the sigmoid activation function.
 	out = Sigmoid(out)
 
@@ -350,7 +354,7 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         }
 
         // Calculate the gradients on the sigmoid activation function.
-        dValues = SigmoidPrime(x, dValues)
+        dValues = SigmoidPrime(copyMatrix(l.sigmoidInputs), dValues)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
-- 
2.43.0


From 61dba799104763a332af44a865c75e34bcd8a252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 06/38] fix: softmax of large scores overflowed to NaN

---
 activation.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/activation.go b/activation.go
index bd4aae3..a464538 100644
--- a/activation.go
+++ b/activation.go
@@ -99,10 +99,16 @@ func LeakyRELUPrime(m, x Matrix, slope float64) Matrix {
 // Softmax activation function.
 func Softmax(m Matrix) Matrix {
 	for i := 0; i < m.Rows; i++ {
+		// Find the largest value of the row, so that the exponentials cannot overflow.
+		largest := math.Inf(-1)
+		for j := 0; j < m.Cols; j++ {
+			largest = math.Max(largest, m.M[i][j])
+		}
+
 		// Calculate the sum of the row and divide by it.
 		sum := float64(0)
 		for j := 0; j < m.Cols; j++ {
-			m.M[i][j] = math.Exp(m.M[i][j])
+			m.M[i][j] = math.Exp(m.M[i][j] - largest)
 			sum += m.M[i][j]
 		}
 		for j := 0; j < m.Cols; j++ {
-- 
2.43.0


From 29e347abd55d7602837b40144ad497c31a459c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 07/38] fix: scale the dropout layer's gradients like its
 outputs, and give zeros instead of NaN at dropout 1

---
 network.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/network.go b/network.go
index 1e32396..36fe30a 100644
--- a/network.go
+++ b/network.go
@@ -793,8 +793,12 @@ func (l *DropoutLayer) Forward(x Matrix) (Matrix, error) {
 	binomial.NewSource()
 	for i := 0; i < out.Rows; i++ {
 		for j := 0; j < out.Cols; j++ {
+			// Kept values are scaled up; a dropout of one keeps nothing.
 			l.binaryMask.M[i][j] = binomial.Rand()
-			out.M[i][j] *= l.binaryMask.M[i][j] / (1 - l.Dropout)
+			if l.binaryMask.M[i][j] != 0 {
+				l.binaryMask.M[i][j] /= 1 - l.Dropout
+			}
+			out.M[i][j] *= l.binaryMask.M[i][j]
 		}
 	}
 
-- 
2.43.0


From a8bed75d12b0ed60fa4b690973d26ababeb01d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 08/38] fix: backward pass after an undropped forward pass used
 a missing or stale dropout mask

---
 network.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network.go b/network.go
index 36fe30a..ebb25bd 100644
--- a/network.go
+++ b/network.go
@@ -831,6 +831,10 @@ func (l *DropoutLayer) ForwardNoDropout(x Matrix) (Matrix, error) {
         // Apply RELU activation for the hidden layer.
         out = RELU(out)
 
+	// Nothing is dropped.
+	l.binaryMask, _ = NewMatrix(out.Rows, out.Cols)
+	l.binaryMask = l.binaryMask.AddScalar(1)
+
 	// Return the matrix.
 	return out, nil
 }
-- 
2.43.0


From 499e2d21203d343cf21c34cbda0d44962516f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:04 +0000
Subject: [PATCH 09/38] fix: squared and absolute losses only counted the first
 sample of a batch

---
 loss.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/loss.go b/loss.go
index c70b4f3..43ec08b 100644
--- a/loss.go
+++ b/loss.go
@@ -68,13 +68,14 @@ func (loss *MeanSquaredLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
 		return 0, err
 	}
 
-	for i := 0; i < sub.Cols; i++ {
-		sub.M[0][i] = math.Pow(sub.M[0][i], 2)
+	out := float64(0)
+	for i := 0; i < sub.Rows; i++ {
+		for j := 0; j < sub.Cols; j++ {
+			out += math.Pow(sub.M[i][j], 2)
+		}
 	}
 
-	out := sub.Sum(1).M[0][0] / float64(sub.Cols)
-
-	return out, nil
+	return out / float64(sub.Cols) / float64(sub.Rows), nil
 }
 
 // Mean squared loss backward pass function. Outputs the gradients of the inputs. 
@@ -145,13 +146,14 @@ func (loss *MeanAbsoluteLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 return 0, err
         }
 
-        for i := 0; i < sub.Cols; i++ {
-                sub.M[0][i] = math.Abs(sub.M[0][i])
+        out := float64(0)
+        for i := 0; i < sub.Rows; i++ {
+                for j := 0; j < sub.Cols; j++ {
+                        out += math.Abs(sub.M[i][j])
+                }
         }
 
-        out := sub.Sum(1).M[0][0] / float64(sub.Cols)
-
-        return out, nil
+        return out / float64(sub.Cols) / float64(sub.Rows), nil
 }
 
 // Mean absolute loss backward pass function. Outputs the gradients of the inputs.
-- 
2.43.0


From f6bf7cdc62d4d2f6a548dd065ad85b4e676effcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:05 +0000
Subject: [PATCH 10/38] fix: absolute loss gradient was always zero (integer
 division)

---
 loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/loss.go b/loss.go
index 43ec08b..558988c 100644
--- a/loss.go
+++ b/loss.go
@@ -176,9 +176,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = float64(1/dInputs.Cols)
+				dInputs.M[i][j] = 1 / float64(dInputs.Cols)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = float64(-1/dInputs.Cols)
+				dInputs.M[i][j] = -1 / float64(dInputs.Cols)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From 5258b386a95146d572cebb3e4ecede47a36b884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 11/38] fix: squared and absolute loss gradients are those of
 the mean over the batch, like the other losses

---
 loss.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/loss.go b/loss.go
index 558988c..e1a38dc 100644
--- a/loss.go
+++ b/loss.go
@@ -95,7 +95,7 @@ func (loss *MeanSquaredLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	if err != nil {
 		return Matrix{}, err
 	}
-	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size))
+	dInputs = dInputs.MulScalar(float64(2) / float64(loss.Size) / float64(yhat.Rows))
 
 	// Return the final gradient.
 	return dInputs, nil
@@ -176,9 +176,9 @@ func (loss *MeanAbsoluteLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
 	for i := 0; i < dInputs.Rows; i++ {
 		for j := 0; j < dInputs.Cols; j++ {
 			if dInputs.M[i][j] > 0 {
-				dInputs.M[i][j] = 1 / float64(dInputs.Cols)
+				dInputs.M[i][j] = 1 / float64(dInputs.Cols) / float64(dInputs.Rows)
 			} else if dInputs.M[i][j] < 0 {
-				dInputs.M[i][j] = -1 / float64(dInputs.Cols)
+				dInputs.M[i][j] = -1 / float64(dInputs.Cols) / float64(dInputs.Rows)
 			} else {
 				dInputs.M[i][j] = 0
 			}
-- 
2.43.0


From db0a23390a2fab2334eca8567ec7a8a1f03b8a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 12/38] fix: Clip altered its argument, so evaluating a loss
 changed the predictions

---
 matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix.go b/matrix.go
index 6c8939d..e436b39 100644
--- a/matrix.go
+++ b/matrix.go
@@ -417,6 +417,9 @@ func (m *Matrix) Sum(axis int) Matrix {
 
 
 func Clip(X Matrix) Matrix {
+	// Work on a copy, the argument belongs to the caller.
+	X = copyMatrix(X)
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0 {
-- 
2.43.0


From c06e2aa397de114275ecf2c2625b72455b3bac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 13/38] fix: Clip let predictions of exactly 0 and 1 through,
 giving infinite losses

---
 matrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix.go b/matrix.go
index e436b39..11e86b1 100644
--- a/matrix.go
+++ b/matrix.go
@@ -422,9 +422,9 @@ func Clip(X Matrix) Matrix {
 
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] < 0 {
+			if X.M[i][j] < 1e-7 {
 				X.M[i][j] = float64(1e-7)
-			} else if X.M[i][j] > 1 {
+			} else if X.M[i][j] > 1 - 1e-7 {
 				X.M[i][j] = float64(1 - 1e-7)
 			}
 		}
-- 
2.43.0


From 38bafc1b4dcbc5f042d082f68d7f6273dd60faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 14/38] fix: cross-entropy gradient divided by zero for
 predictions of exactly 0

---
 loss.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/loss.go b/loss.go
index e1a38dc..103bd17 100644
--- a/loss.go
+++ b/loss.go
@@ -264,11 +264,14 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                 }
         }
 
+	// Clip the predicted values.
+	clipped := Clip(yhat)
+
         // Calculate the gradient of the cross-entropy loss function.
 	dInputs, _ := NewMatrix(yhat.Rows, yhat.Cols)
         for i := 0; i < dInputs.Rows; i++ {
                 for j := 0; j < dInputs.Cols; j++ {
-                        dInputs.M[i][j] = (-y.M[i][j]/yhat.M[i][j])/float64(yhat.Rows)
+                        dInputs.M[i][j] = (-y.M[i][j]/clipped.M[i][j])/float64(yhat.Rows)
                 }
         }
 
-- 
2.43.0


From c8e7af9f2c13fbf8c6b721b2bb11a7797eaa15a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 15/38] fix: OutputBinaryValues and BinaryCategoricalAccuracy
 overwrote the predictions

---
 misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc.go b/misc.go
index 887b5fd..bd72d6d 100644
--- a/misc.go
+++ b/misc.go
@@ -58,6 +58,9 @@ func RowMax(X Matrix) Matrix {
 
 // Return the output values for binary categorization.
 func OutputBinaryValues(X Matrix) Matrix {
+	// Work on a copy, the argument belongs to the caller.
+	X = copyMatrix(X)
+
 	for i := 0; i < X.Rows; i++ {
 		for j := 0; j < X.Cols; j++ {
 			if X.M[i][j] < 0.5 {
-- 
2.43.0


From 8d0a370849c2880af637a9afec2c1b69afb0801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 16/38] fix: backward passes overwrote the gradients passed to
 them

---
 network.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/network.go b/network.go
index ebb25bd..8836157 100644
--- a/network.go
+++ b/network.go
@@ -128,7 +128,7 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 	}
 
 	// Calculate the gradients on the RELU activation function.
-	dValues = RELUPrime(dValues, l.reluInputs)
+	dValues = RELUPrime(copyMatrix(dValues), l.reluInputs)
 
 	// Complete the backpropagation process and calculate the gradients.
 	it := x.T()
@@ -480,7 +480,7 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
         }
 
         // Calculate the gradients on the leaky RELU activation function.
-	dValues = LeakyRELUPrime(dValues, l.reluInputs, l.Slope)
+	dValues = LeakyRELUPrime(copyMatrix(dValues), l.reluInputs, l.Slope)
 
         // Complete the backpropagation process and calculate the gradients.
         it := x.T()
@@ -850,6 +850,7 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         }
 
 	// Calculate the gradients on the dropout.
+	dValues = copyMatrix(dValues)
 	for i := 0; i < dValues.Rows; i++ {
                 for j := 0; j < dValues.Cols; j++ {
 			dValues.M[i][j] *= l.binaryMask.M[i][j]
-- 
2.43.0


From e71b518da1592c48b10de5ffba3647e98ff4fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 17/38] fix: Adam corrected the second moment with beta1
 instead of beta2

---
 optimizers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/optimizers.go b/optimizers.go
index 19c4fdc..ad9e367 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -274,8 +274,8 @@ func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
         }
 
 	// Calculate the corrected weight and bias caches.
-	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
-	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta1, float64(optimizer.iterations + 1))))
+	correctedWeightCaches := optimizer.weightCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
+	correctedBiasCaches := optimizer.biasCache.MulScalar(float64(1) / (float64(1) - math.Pow(optimizer.Beta2, float64(optimizer.iterations + 1))))
 
 	// Update the weights and biases matricies.
         for i := 0; i < weights.Rows; i++ {
-- 
2.43.0


From 6654291a03bc57e13fe1f1ed2508f6ae85bdee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 18/38] fix: optimizers panicked or lost their state on
 gradients of the wrong shape

---
 optimizers.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/optimizers.go b/optimizers.go
index ad9e367..653b13a 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -37,6 +37,18 @@ func NewOptimizerFromType(optimizerType OptimizerType, values map[string]float64
 }
 
 
+// Check that the gradients match the parameters.
+func checkGradientDimensions(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	if dWeights.Rows != weights.Rows || dWeights.Cols != weights.Cols {
+		return invalidMatrixDimensionsError(dWeights.Rows, dWeights.Cols)
+	}
+	if dBiases.Rows != biases.Rows || dBiases.Cols != biases.Cols {
+		return invalidMatrixDimensionsError(dBiases.Rows, dBiases.Cols)
+	}
+	return nil
+}
+
+
 // Stochastic gradient descent optimizer object. Can handle a single layer.
 type SGDOptimizer struct {
 	LearningRate    float64
@@ -94,6 +106,11 @@ func NewSGDOptimizer(learningRate, decay, momentum float64) (SGDOptimizer, error
 
 // Update the weights and biases for the layer.
 func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check that the dimensions are correct.
+	if err := checkGradientDimensions(weights, biases, dWeights, dBiases); err != nil {
+		return err
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
 		optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
@@ -223,6 +240,11 @@ func NewAdamOptimizer(learningRate, decay, epsilon, beta1, beta2 float64) (AdamO
 
 // Update the weights and biases for the layer.
 func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights Matrix, dBiases Matrix) error {
+	// Check that the dimensions are correct.
+	if err := checkGradientDimensions(weights, biases, dWeights, dBiases); err != nil {
+		return err
+	}
+
 	// Calculate the new learning rate.
 	if optimizer.useDecay {
                 optimizer.currentRate = optimizer.LearningRate * (float64(1) / (float64(1) + optimizer.Decay * float64(optimizer.iterations)))
-- 
2.43.0


From e835d3041827fdff77678637a1b4ce236af4d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 19/38] fix: optimizers lost their momentum when given
 parameters of another shape

---
 optimizers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/optimizers.go b/optimizers.go
index 653b13a..6f46235 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -123,6 +123,9 @@ func (optimizer *SGDOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
 			optimizer.weightMomentums, _ = NewMatrix(weights.Rows, weights.Cols)
 			optimizer.biasMomentums, _ = NewMatrix(biases.Rows, biases.Cols)
 		}
+		if err := checkGradientDimensions(&optimizer.weightMomentums, &optimizer.biasMomentums, dWeights, dBiases); err != nil {
+			return err
+		}
 
 		// Calculate weight updates with momentum.
 		scaledMomentumsWeights := optimizer.weightMomentums.MulScalar(optimizer.Momentum)
@@ -257,6 +260,9 @@ func (optimizer *AdamOptimizer) Update(weights *Matrix, biases *Matrix, dWeights
 		optimizer.weightCache, _ = NewMatrix(weights.Rows, weights.Cols)
 		optimizer.biasCache, _ = NewMatrix(biases.Rows, biases.Cols)
         }
+	if err := checkGradientDimensions(&optimizer.weightMomentums, &optimizer.biasMomentums, dWeights, dBiases); err != nil {
+		return err
+	}
 
 	// Calculate the new weight and bias momentums.
 	scaledWeightMomentums := optimizer.weightMomentums.MulScalar(optimizer.Beta1)
-- 
2.43.0


From 38c65c1d1fa346c65cee1b3441e175c82524ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:52 +0000
Subject: [PATCH 20/38] fix: RowMax always chose column 0 in rows without
 positive values

---
 misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc.go b/misc.go
index bd72d6d..5e69233 100644
--- a/misc.go
+++ b/misc.go
@@ -41,7 +41,7 @@ func RowMax(X Matrix) Matrix {
 		var largest int
 		var largestValue float64
 		for j := 0; j < X.Cols; j++ {
-			if X.M[i][j] > largestValue {
+			if j == 0 || X.M[i][j] > largestValue {
 				largest = j
 				largestValue = X.M[i][j]
 			}
-- 
2.43.0


From 8c02eb928c2337ef99015bc227cbff2f7e473e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 21/38] fix: refuse out-of-range labels in SparseToOneHot
 instead of panicking

---
 misc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc.go b/misc.go
index 5e69233..5188138 100644
--- a/misc.go
+++ b/misc.go
@@ -23,6 +23,9 @@ func SparseToOneHot(X Matrix, size int) (Matrix, error) {
 
 	// Loop over the matrix, transforming each sparse vector into one-hot vectors.
 	for i := 0; i < X.Rows; i++ {
+		if !(X.M[i][0] >= 0 && X.M[i][0] < float64(size)) {
+			return Matrix{}, errors.New("nn.SparseToOneHot: Label out of range.")
+		}
 		ans.M[i][int(X.M[i][0])] = 1
 	}
 
-- 
2.43.0


From 0ac5b4d4f75581c6248013287f3476237a480e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 22/38] fix: training with logging, error reporting and loading
 other versions panicked without InitLogger

---
 nn.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nn.go b/nn.go
index 516c6a1..520a13a 100644
--- a/nn.go
+++ b/nn.go
@@ -16,11 +16,11 @@ const (
 )
 
 
-// Logging.
+// Logging. Silent until InitLogger is called.
 var (
-	WarningLogger *log.Logger
-	InfoLogger    *log.Logger
-	ErrorLogger   *log.Logger
+	WarningLogger *log.Logger = log.New(io.Discard, "", 0)
+	InfoLogger    *log.Logger = log.New(io.Discard, "", 0)
+	ErrorLogger   *log.Logger = log.New(io.Discard, "", 0)
 )
 
 
-- 
2.43.0


From 13564e6364a4558f9f4aaeddd8d53744fb1bd9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 23/38] fix: cross-entropy losses panicked or ignored samples
 when the number of targets differed

---
 loss.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/loss.go b/loss.go
index 103bd17..19eeace 100644
--- a/loss.go
+++ b/loss.go
@@ -228,6 +228,10 @@ func (loss *CrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, error) {
                 }
         }
 
+	if yhat.Rows != y.Rows {
+		return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
+
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
 	clipped := Clip(yhat)
 
@@ -264,6 +268,10 @@ func (loss *CrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, error) {
                 }
         }
 
+	if yhat.Rows != y.Rows {
+		return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
+
 	// Clip the predicted values.
 	clipped := Clip(yhat)
 
@@ -318,6 +326,10 @@ func (loss *BinaryCrossEntropyLoss) Forward(yhat Matrix, y Matrix) (float64, err
                 }
         }
 
+	if yhat.Rows != y.Rows {
+		return 0, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
+
         // Calculate the cross-entropy loss (J = -log(Σ[clip(yhat) * y])).
         clipped := Clip(yhat)
 
@@ -345,6 +357,10 @@ func (loss *BinaryCrossEntropyLoss) Backward(yhat Matrix, y Matrix) (Matrix, err
                 }
         }
 
+	if yhat.Rows != y.Rows {
+		return Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
+	}
+
 	// Clip the predicted values.
         clipped := Clip(yhat)
 
-- 
2.43.0


From c2cb91d2aec0a52c2109dfa7c48b4c968897e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 24/38] fix: CalculateAccuracy panicked or ignored samples on
 mismatched true values

---
 model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model.go b/model.go
index 5b60cec..fd7c6be 100644
--- a/model.go
+++ b/model.go
@@ -325,6 +325,11 @@ func (m *Model) CalculateAccuracy(X, Y Matrix) (float64, error) {
                 return 0, err
         }
 
+	// Check that the true values match the outputs.
+	if Y.Rows != outputs[m.ModelSize].Rows || Y.Cols != outputs[m.ModelSize].Cols {
+		return 0, invalidMatrixDimensionsError(Y.Rows, Y.Cols)
+	}
+
 	// Determine which type of accuracy to calculate.
 	if m.AccuracyType == RegressionAccuracyType {
 		return RegressionAccuracy(outputs[m.ModelSize], Y, m.AccuracyPercision), nil
-- 
2.43.0


From 58830d03f121375b4db56470b8d60af842b5f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:57 +0000
Subject: [PATCH 25/38] fix: Fit panicked, or trained on part of the data, on
 mismatched data or a negative batch size

---
 model.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/model.go b/model.go
index fd7c6be..3274930 100644
--- a/model.go
+++ b/model.go
@@ -215,6 +215,17 @@ func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEv
 	// See if we will have to use validation.
 	useValidation := (yVal.Rows != 0)
 
+	// Check all the arguments before changing anything.
+	if X.Cols != m.InputSize || Y.Cols != m.OutputSize || X.Rows != Y.Rows {
+		return errors.New("nn.Model: Training data does not match the model or each other.")
+	}
+	if useValidation && (xVal.Cols != m.InputSize || yVal.Cols != m.OutputSize || xVal.Rows != yVal.Rows) {
+		return errors.New("nn.Model: Validation data does not match the model or each other.")
+	}
+	if batchSize < 0 {
+		return errors.New("nn.Model: Batch size cannot be less than zero.")
+	}
+
 	// Calculate the number of batch steps. If not using batching, the number of steps will be 1 and the size will be number of samples.
 	useBatching := (batchSize != 0)
 	batchSteps := 1
-- 
2.43.0


From 54fff2e28319f2af25d6142abcfffeb8ff3b589e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 26/38] fix: backward passes panicked when no forward pass of
 that many rows had been done

---
 network.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/network.go b/network.go
index 8836157..4ef3086 100644
--- a/network.go
+++ b/network.go
@@ -126,6 +126,9 @@ func (l *HiddenLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix
 	if dValues.Cols != l.OutputSize {
 		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
 	}
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+	}
 
 	// Calculate the gradients on the RELU activation function.
 	dValues = RELUPrime(copyMatrix(dValues), l.reluInputs)
@@ -352,6 +355,9 @@ func (l *SigmoidLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+	if l.sigmoidInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.sigmoidInputs.Rows, dValues.Rows)
+	}
 
         // Calculate the gradients on the sigmoid activation function.
         dValues = SigmoidPrime(copyMatrix(l.sigmoidInputs), dValues)
@@ -478,6 +484,9 @@ func (l *LeakyLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matrix,
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+	}
 
         // Calculate the gradients on the leaky RELU activation function.
 	dValues = LeakyRELUPrime(copyMatrix(dValues), l.reluInputs, l.Slope)
@@ -848,6 +857,9 @@ func (l *DropoutLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
         if dValues.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(dValues.Rows, dValues.Cols)
         }
+	if l.reluInputs.Rows != dValues.Rows {
+		return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(l.reluInputs.Rows, dValues.Rows)
+	}
 
 	// Calculate the gradients on the dropout.
 	dValues = copyMatrix(dValues)
-- 
2.43.0


From c09b1429a92b8f737eaa44542b0f8b78a508038e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:46 +0000
Subject: [PATCH 27/38] fix: BackwardCrossEntropy accepted inputs of the wrong
 width and returned misshapen gradients

---
 network.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/network.go b/network.go
index 4ef3086..be82c0c 100644
--- a/network.go
+++ b/network.go
@@ -665,6 +665,9 @@ func (l *SoftmaxLayer) Backward(x Matrix, dValues Matrix) (Matrix, Matrix, Matri
 // Softmax + categorial cross-entropy loss layer backward pass. Arguments are the input, correct output and output matricies. Ouputs the gradients for the weights, biases, and inputs, respectively.
 func (l *SoftmaxLayer) BackwardCrossEntropy(x Matrix, y Matrix, dValues Matrix) (Matrix, Matrix, Matrix, error) {
         // Check that the input and output matricies are valid.
+	if x.Cols != l.InputSize {
+                return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(x.Rows, x.Cols)
+        }
 	if y.Cols != l.OutputSize {
                 return Matrix{}, Matrix{}, Matrix{}, invalidMatrixDimensionsError(y.Rows, y.Cols)
         }
-- 
2.43.0


From 16da67aa78e0166577eab4b8fbce13efc3429a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 28/38] fix: Model.Backward panicked on outputs that are not
 those of a forward pass

---
 model.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model.go b/model.go
index 3274930..dc9e2f6 100644
--- a/model.go
+++ b/model.go
@@ -170,6 +170,11 @@ func (m *Model) Forward(X Matrix, training bool) ([]Matrix, error) {
 
 // Backward pass. Takes in outputs from the forward pass, along with the true values. Returns a list of gradients.
 func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
+	// Check that there is an output for every layer.
+	if m.ModelSize == 0 || len(outputs) != m.ModelSize + 1 {
+		return []Gradients{}, errors.New("nn.Model: Outputs do not match the model's layers.")
+	}
+
 	// Create the list of gradients.
 	gradients := []Gradients{}
 
-- 
2.43.0


From d15ee874cbddf11cc8e5c1e1e0f0bb2b042e2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 29/38] fix: loading a model with a negative key length
 panicked, negative counts were accepted

---
 model_data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model_data.go b/model_data.go
index b291ad3..103cd48 100644
--- a/model_data.go
+++ b/model_data.go
@@ -250,6 +250,9 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
         if err != nil {
                 return SavedModelData{}, []Layer{}, err
         }
+	if modelSize < 0 || lenOptimizerValues < 0 {
+		return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Negative length. Check that the data is not corrupted.")
+	}
 
 	// Loop over all the values.
 	for i := 0; i < int(lenOptimizerValues); i++ {
@@ -259,6 +262,9 @@ func loadModelBuffer(buf *bytes.Buffer) (SavedModelData, []Layer, error) {
 	        if err != nil {
 	                return SavedModelData{}, []Layer{}, err
 		}
+		if lenKey < 0 {
+			return SavedModelData{}, []Layer{}, errors.New("nn.LoadModel: Negative length. Check that the data is not corrupted.")
+		}
 
 		// Read the key.
 		key := make([]byte, int(lenKey))
-- 
2.43.0


From 51ffe03dbaa84583be819995c159e7279057fc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:48 +0000
Subject: [PATCH 30/38] fix: loading corrupted layer sizes allocated memory for
 values that are not there

---
 layer_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/layer_data.go b/layer_data.go
index fb3f10b..390d426 100644
--- a/layer_data.go
+++ b/layer_data.go
@@ -163,6 +163,11 @@ func loadLayerBuffer(buf *bytes.Buffer) (SavedLayerData, error) {
                 return SavedLayerData{}, err
         }
 
+	// Check that the buffer holds that many values before making room for them.
+	if inputSize > 0 && outputSize > 0 && int64(inputSize) + 1 > int64(buf.Len() / 8) / int64(outputSize) {
+		return SavedLayerData{}, errors.New("nn.LoadLayer: Not enough data. Check that the data is not corrupted.")
+	}
+
 	// Read the weight matrix.
 	weights, err := NewMatrix(int(inputSize), int(outputSize))
 	if err != nil {
-- 
2.43.0


From 4c62025763fbe9dfa0a30bf380e94fff8336c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 31/38] fix: models of more than 127 layers were saved with a
 wrong layer count

---
 model_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/model_data.go b/model_data.go
index 103cd48..e5890dd 100644
--- a/model_data.go
+++ b/model_data.go
@@ -51,6 +51,11 @@ func NewSavedModelData(model Model) SavedModelData {
 
 // Serialize the model into a buffer. NOTE: Model optimizer caches will not be saved or loaded.
 func (m *SavedModelData) Serialize(buf *bytes.Buffer) error {
+	// Check that the model size fits into its byte.
+	if m.ModelSize > 127 {
+		return errors.New("nn.SavedModelData: Too many layers to save.")
+	}
+
 	// Write the magic bytes.
         buf.WriteString("NNML")
 
-- 
2.43.0


From 7e215fd537559e38a130fb547dbede96e0e23a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:50 +0000
Subject: [PATCH 32/38] fix: SaveFile destroyed an existing file before finding
 that the model cannot be encoded

---
 model_data.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/model_data.go b/model_data.go
index e5890dd..db36cf4 100644
--- a/model_data.go
+++ b/model_data.go
@@ -363,19 +363,19 @@ func SaveFile(model *Model, filename string) error {
 	// Get the saved model data.
 	data := NewSavedModelData(*model)
 
-	// Open the file.
-        file, err := os.Create(filename)
+	// Save the model data to a buffer.
+        var buffer bytes.Buffer
+        err := data.Serialize(&buffer)
         if err != nil {
                 return err
         }
-        defer file.Close()
 
-	// Save the model data to a buffer.
-        var buffer bytes.Buffer
-        err = data.Serialize(&buffer)
+	// Open the file.
+        file, err := os.Create(filename)
         if err != nil {
                 return err
         }
+        defer file.Close()
 
 	// Write the buffer to the file.
         _, err = file.Write(buffer.Bytes())
-- 
2.43.0


From 8efa0318ab41146d2ff143a644058451a0769e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 33/38] fix: Finalize with a negative percision was refused
 only after altering the model

---
 model.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model.go b/model.go
index dc9e2f6..df22ab2 100644
--- a/model.go
+++ b/model.go
@@ -98,6 +98,11 @@ func (m *Model) AddLayer(l Layer) error {
 
 // Finalize the model with the loss and optimizer data.
 func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyType, accuracyPercision float64) error {
+	// Check the accuracy percision before changing anything.
+	if accuracyPercision < 0 {
+		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
+	}
+
 	// Set the loss.
 	values := loss.getValues()
 	if m.OutputSize != int(values["size"]) {
@@ -124,9 +129,6 @@ func (m *Model) Finalize(loss Loss, optimizer Optimizer, accuracyType AccuracyTy
 
 	// Set the accuracy.
 	m.AccuracyType = accuracyType
-	if accuracyPercision < 0 {
-		return errors.New("nn.Model: Accuracy percision cannot be less than zero.")
-	}
 	m.AccuracyPercision = accuracyPercision
 
 	return nil
-- 
2.43.0


From 13753122762912b769e89a0f5bb2d90f1b36ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 34/38] fix: LoadFile reads files larger than one read call
 returns

---
 model_data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model_data.go b/model_data.go
index db36cf4..a474b7c 100644
--- a/model_data.go
+++ b/model_data.go
@@ -8,6 +8,7 @@ import (
         "bytes"
         "encoding/binary"
 	"errors"
+	"io"
 	"os"
 )
 
@@ -403,7 +404,7 @@ func LoadFile(filename string) (Model, error) {
 	buffer := make([]byte, stat.Size())
 
         // Read the file into the buffer.
-	_, err = file.Read(buffer)
+	_, err = io.ReadFull(file, buffer)
 	if err != nil {
 		return Model{}, err
 	}
-- 
2.43.0


From 8e99d85669f5235921bf5820b485bf87391b7ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:24 +0000
Subject: [PATCH 35/38] fix: training, gradients and loss of a model that is
 not finalized panicked

---
 model.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/model.go b/model.go
index df22ab2..000de54 100644
--- a/model.go
+++ b/model.go
@@ -177,6 +177,10 @@ func (m *Model) Backward(outputs []Matrix, Y Matrix) ([]Gradients, error) {
 		return []Gradients{}, errors.New("nn.Model: Outputs do not match the model's layers.")
 	}
 
+	if m.Loss == nil {
+		return []Gradients{}, errors.New("nn.Model: Model must be finalized before its gradients can be calculated.")
+	}
+
 	// Create the list of gradients.
 	gradients := []Gradients{}
 
@@ -233,6 +237,10 @@ func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEv
 		return errors.New("nn.Model: Batch size cannot be less than zero.")
 	}
 
+	if m.Loss == nil || len(m.Optimizers) != m.ModelSize {
+		return errors.New("nn.Model: Model must be finalized before it can be trained.")
+	}
+
 	// Calculate the number of batch steps. If not using batching, the number of steps will be 1 and the size will be number of samples.
 	useBatching := (batchSize != 0)
 	batchSteps := 1
@@ -320,6 +328,11 @@ func (m *Model) Fit(X, Y Matrix, epochs, batchSize int, xVal, yVal Matrix, logEv
 
 // Calculate the average loss for the model, given X and Y.
 func (m *Model) CalculateLoss(X, Y Matrix) (float64, error) {
+	// Check that there is a loss to calculate.
+	if m.Loss == nil {
+		return 0, errors.New("nn.Model: Model must be finalized before its loss can be calculated.")
+	}
+
 	// Perform the forward pass.
 	outputs, err := m.Forward(X, false)
 	if err != nil {
-- 
2.43.0


From b7703de510b8ab60ab584ca6999d5ca2b9160def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 36/38] fix: SetColumn given a row of the same matrix overwrote
 values it had yet to read

---
 matrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix.go b/matrix.go
index 11e86b1..5722701 100644
--- a/matrix.go
+++ b/matrix.go
@@ -186,6 +186,9 @@ func (m *Matrix) SetColumn(col int, values []float64) error {
 		return invalidSliceDimensionsError(len(values))
 	}
 
+	// Work on a copy, the values may be part of a row of this matrix.
+	values = append([]float64(nil), values...)
+
 	// Loop over the rows and insert the column.
 	for i := 0; i < m.Rows; i++ {
 		m.M[i][col] = values[i]
-- 
2.43.0


From 233c49c14c61b9245b362f2eccd78bc831c8a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:36 +0000
Subject: [PATCH 37/38] fix: ShuffleDataset broke pairs, or shuffled nothing,
 when inputs and targets share their list of rows

---
 misc.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/misc.go b/misc.go
index 5188138..d770cf5 100644
--- a/misc.go
+++ b/misc.go
@@ -84,6 +84,15 @@ func ShuffleDataset(X, Y Matrix) (Matrix, Matrix) {
 	// Seed the random number generator.
 	rand.Seed(time.Now().UnixNano())
 
+	// If both hold their rows in one list, give each its own, or the rows would be swapped twice.
+	for i := 0; i < X.Rows && i < Y.Rows; i++ {
+		if &X.M[i] == &Y.M[0] || &Y.M[i] == &X.M[0] {
+			X.M = append([][]float64(nil), X.M...)
+			Y.M = append([][]float64(nil), Y.M...)
+			break
+		}
+	}
+
 	// Shuffle the matricies.
 	rand.Shuffle(X.Rows, func(i, j int) {
 		X.M[i], X.M[j] = X.M[j], X.M[i]
-- 
2.43.0


From 07ad7e26c257b1a6a6bd4890e43f075600b1f92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:48 +0000
Subject: [PATCH 38/38] fix: constructors accepted a learning rate, decay,
 momentum or dropout rate that is not a number

---
 network.go    |  2 +-
 optimizers.go | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/network.go b/network.go
index be82c0c..ec53b36 100644
--- a/network.go
+++ b/network.go
@@ -724,7 +724,7 @@ func NewDropoutLayer(inputSize, outputSize int, dropout float64) (DropoutLayer,
         }
 
 	// Check that the dropout value is correct.
-	if dropout > 1 || dropout < 0 {
+	if !(dropout >= 0 && dropout <= 1) {
 		return DropoutLayer{}, errors.New("Invalid dropout value.")
 	}
 
diff --git a/optimizers.go b/optimizers.go
index 6f46235..2923655 100644
--- a/optimizers.go
+++ b/optimizers.go
@@ -82,13 +82,13 @@ func (optimizer *SGDOptimizer) setValues(values map[string]float64) {
 // Create a new SGD optimizer object.
 func NewSGDOptimizer(learningRate, decay, momentum float64) (SGDOptimizer, error) {
 	// Check that the optimizer values are valid.
-	if learningRate <= 0 {
+	if !(learningRate > 0) {
 		return SGDOptimizer{}, errors.New(fmt.Sprintf("nn.SGDOptimizer: Invalid learning rate: %f", learningRate))
 	}
-	if decay < 0 {
+	if !(decay >= 0) {
 		return SGDOptimizer{}, errors.New(fmt.Sprintf("nn.SGDOptimizer: Invalid decay: %f", decay))
 	}
-	if momentum < 0 {
+	if !(momentum >= 0) {
 		return SGDOptimizer{}, errors.New(fmt.Sprintf("nn.SGDOptimizer: Invalid momentum: %f", momentum))
 	}
 
@@ -221,10 +221,10 @@ func (optimizer *AdamOptimizer) setValues(values map[string]float64) {
 // Create a new Adam optimizer object.
 func NewAdamOptimizer(learningRate, decay, epsilon, beta1, beta2 float64) (AdamOptimizer, error) {
         // Check that the optimizer values are valid.
-        if learningRate <= 0 {
+        if !(learningRate > 0) {
                 return AdamOptimizer{}, errors.New(fmt.Sprintf("nn.AdamOptimizer: Invalid learning rate: %f", learningRate))
         }
-        if decay < 0 {
+        if !(decay >= 0) {
                 return AdamOptimizer{}, errors.New(fmt.Sprintf("nn.AdamOptimizer: Invalid decay: %f", decay))
         }
 
-- 
2.43.0

