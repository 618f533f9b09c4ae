From 26f341ef211a206e424fc25b105d2b4c3aefde28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:52 +0000
Subject: [PATCH 01/41] fix: do not share the shape slice between matrices

---
 mat/dense.go     | 2 +-
 mat/dense_new.go | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index a6f9e72..b2018a6 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -33,7 +33,7 @@ func makeDense[T float.DType](array []T, shape ...int) *Dense[T] {
 		log.Fatalf("mat: incompatible size, expected %d, actual %d", calculateSize(shape), len(array))
 	}
 	return &Dense[T]{
-		shape: shape,
+		shape: adjustShape(shape...), // never share the caller's slice
 		data:  array,
 	}
 }
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 7ce9bf2..bd6883b 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -124,11 +124,13 @@ func checkShape(shape ...int) error {
 	return nil
 }
 
+// adjustShape returns a new two-dimensional shape slice, which doesn't share
+// memory with the given one: the shape of a matrix can be modified in place.
 func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
 	}
-	return shape
+	return append([]int(nil), shape...)
 }
 
 func newScalar[T float.DType](value T, opts ...OptionsFunc) (*Dense[T], error) {
-- 
2.43.0


From 759dc0fca8a0765d5456b0cf393bc8c75c014fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 02/41] fix: give operand gradients the shape of the operand

---
 mat/gradfn/concat.go     | 2 +-
 mat/gradfn/max.go        | 4 ++--
 mat/gradfn/min.go        | 4 ++--
 mat/gradfn/reducemean.go | 2 +-
 mat/gradfn/reducesum.go  | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 2c51eb6..79d7f8f 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -56,7 +56,7 @@ func (r *Concat[O]) Backward(gy mat.Tensor) error {
 	xs := r.xs
 	for i, gx := range gy.(mat.Matrix).SplitV(sizes...) {
 		if xs[i].RequiresGrad() {
-			xs[i].AccGrad(gx)
+			xs[i].AccGrad(gx.ReshapeInPlace(xs[i].Value().Shape()...))
 		}
 	}
 	return nil
diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 679b574..df37cd8 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -56,7 +56,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index aee4a76..b8c2f73 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -56,7 +56,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducemean.go b/mat/gradfn/reducemean.go
index 142a6fc..dd8c570 100644
--- a/mat/gradfn/reducemean.go
+++ b/mat/gradfn/reducemean.go
@@ -42,7 +42,7 @@ func (r *ReduceMean[O]) Backward(gy mat.Tensor) error {
 		x := r.x.Value().(mat.Matrix)
 		size := x.Size()
 		v := gy.Item().F64() / float64(size)
-		gx := x.NewMatrix(mat.WithShape(size), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
+		gx := x.NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducesum.go b/mat/gradfn/reducesum.go
index 7c186a4..51b8927 100644
--- a/mat/gradfn/reducesum.go
+++ b/mat/gradfn/reducesum.go
@@ -39,7 +39,7 @@ func (r *ReduceSum[O]) Backward(gy mat.Tensor) error {
 	}
 	if r.x.RequiresGrad() {
 		x := r.x.Value()
-		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Size()), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
+		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From 9065d0310728187239bbc525ed8211b518e0c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 03/41] fix: back-propagate through the softmax of a row vector

---
 mat/gradfn/softmax.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/softmax.go b/mat/gradfn/softmax.go
index cc4060c..9664fe8 100644
--- a/mat/gradfn/softmax.go
+++ b/mat/gradfn/softmax.go
@@ -36,7 +36,7 @@ func (r *Softmax[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Softmax[O]) Backward(gy mat.Tensor) error {
-	if !mat.SameDims(r.x.Value(), gy) {
+	if !mat.SameDims(r.y, gy) { // the result is always a column vector
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
@@ -50,7 +50,7 @@ func (r *Softmax[O]) Backward(gy mat.Tensor) error {
 			vCol := y.ScalarAt(col).F64()
 			return -(vRow * vCol)
 		})))
-		gx := jb.Mul(gy.(mat.Matrix))
+		gx := jb.Mul(gy.(mat.Matrix)).ReshapeInPlace(r.x.Value().Shape()...)
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From 8d700873366e8a87a889afcc69def04bb52b6bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 04/41] fix: maximum of negative scalars

---
 mat/gradfn/scalarmax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 3de6fd9..5fc4165 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -37,7 +37,7 @@ func (r *ScalarMax[O]) Forward() (mat.Tensor, error) {
 	for i, x := range r.xs {
 		// FIXME: avoid casting to specific type
 		val := x.Value().Item().F64()
-		if val > max {
+		if i == 0 || val > max {
 			max = val
 			argmax = i
 		}
-- 
2.43.0


From 0064d750c395d44a5eeaf398bf684407a4601637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 05/41] fix: back-propagation through ScalarMax over operators
 never ended

---
 mat/gradfn/scalarmax.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 5fc4165..fb0d689 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -51,9 +51,18 @@ func (r *ScalarMax[O]) Backward(gy mat.Tensor) error {
 	if !mat.IsScalar(gy) {
 		return fmt.Errorf("fn: the gradient had to be a scalar")
 	}
-	target := r.xs[r.argmax]
-	if target.RequiresGrad() {
-		target.AccGrad(gy)
+	for i, x := range r.xs {
+		if !x.RequiresGrad() {
+			continue
+		}
+		if i == r.argmax {
+			x.AccGrad(gy)
+			continue
+		}
+		if _, isLeaf := any(x).(mat.Matrix); !isLeaf {
+			// An operator waits for the contribution of each of its users.
+			x.AccGrad(gy.(mat.Matrix).ZerosLike())
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 9c3270eb37b0d759fafeaad0ceb0d260f5cd8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:41 +0000
Subject: [PATCH 06/41] fix: max pooling over negative values and non-square
 windows

---
 mat/gradfn/maxpooling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 978edc2..9d36e97 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -52,11 +52,11 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
-			maximum := math.SmallestNonzeroFloat64
+			maximum := math.Inf(-1)
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-				maxCols := (col * r.cols) + r.rows
+				maxCols := (col * r.cols) + r.cols
 				for j := col * r.cols; j < maxCols; j++ {
 					// FIXME: avoid casting to specific type
 					val := xv.ScalarAt(i, j).F64()
-- 
2.43.0


From 5f0623b4dad67a299902458d0d92d28c2aa73982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:53 +0000
Subject: [PATCH 07/41] fix: sparsemax of vectors whose maximum is below one

---
 mat/gradfn/sparsemax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 8c8a85e..1b6f451 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -39,7 +39,7 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 
 	_, _, _, tau := sparseMaxCommon(v)
 
-	v.SubScalarInPlace(tau).ClipInPlace(0, xMax)
+	v.SubScalarInPlace(tau).ClipInPlace(0, 1)
 
 	r.y = v
 	return v, nil
-- 
2.43.0


From 45d0acdcb7a6f71a9d7e78f221516b42a3a2d3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 08/41] fix: gradients of the scalar parameters of activation
 functions

---
 mat/gradfn/celu.go       |  8 ++++++++
 mat/gradfn/elu.go        |  7 +++++++
 mat/gradfn/leakyrelu.go  |  4 ++++
 mat/gradfn/paramgrad.go  | 24 ++++++++++++++++++++++++
 mat/gradfn/selu.go       | 10 ++++++++++
 mat/gradfn/softplus.go   | 10 ++++++++++
 mat/gradfn/softshrink.go | 10 ++++++++++
 mat/gradfn/swishb.go     | 13 +++----------
 mat/gradfn/threshold.go  |  9 +++++++++
 9 files changed, 85 insertions(+), 10 deletions(-)
 create mode 100644 mat/gradfn/paramgrad.go

diff --git a/mat/gradfn/celu.go b/mat/gradfn/celu.go
index be3fe0e..f724e39 100644
--- a/mat/gradfn/celu.go
+++ b/mat/gradfn/celu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -45,5 +46,12 @@ func (r *CELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accParamGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		z := v / r.alpha.Value().Item().F64()
+		return math.Exp(z)*(1-z) - 1
+	})
 	return nil
 }
diff --git a/mat/gradfn/elu.go b/mat/gradfn/elu.go
index cc38b81..79dc818 100644
--- a/mat/gradfn/elu.go
+++ b/mat/gradfn/elu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -46,5 +47,11 @@ func (r *ELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accParamGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		return math.Exp(v) - 1
+	})
 	return nil
 }
diff --git a/mat/gradfn/leakyrelu.go b/mat/gradfn/leakyrelu.go
index 4899f43..8876496 100644
--- a/mat/gradfn/leakyrelu.go
+++ b/mat/gradfn/leakyrelu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -45,5 +46,8 @@ func (r *LeakyReLU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accParamGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		return math.Min(0, v)
+	})
 	return nil
 }
diff --git a/mat/gradfn/paramgrad.go b/mat/gradfn/paramgrad.go
new file mode 100644
index 0000000..0708fbe
--- /dev/null
+++ b/mat/gradfn/paramgrad.go
@@ -0,0 +1,24 @@
+// Copyright 2023 spaGO Authors. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+package gradfn
+
+import (
+	"github.com/nlpodyssey/spago/mat"
+)
+
+// accParamGrad accumulates the gradient of a scalar operand of an element-wise
+// function. The function df is the derivative of the output element with
+// respect to the scalar, given the corresponding input element.
+func accParamGrad(param, x, gy mat.Tensor, df func(v float64) float64) {
+	if !param.RequiresGrad() {
+		return
+	}
+	gyData := gy.Data().F64()
+	var sum float64
+	for i, v := range x.Value().Data().F64() {
+		sum += df(v) * gyData[i]
+	}
+	param.AccGrad(param.Value().(mat.Matrix).NewScalar(sum))
+}
diff --git a/mat/gradfn/selu.go b/mat/gradfn/selu.go
index 27a0555..743c198 100644
--- a/mat/gradfn/selu.go
+++ b/mat/gradfn/selu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -54,5 +55,14 @@ func (r *SELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accParamGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		return r.scale.Value().Item().F64() * (math.Exp(v) - 1)
+	})
+	accParamGrad(r.scale, r.x, gy, func(v float64) float64 {
+		return selu(0, 0, v, r.alpha.Value().Item().F64(), 1)
+	})
 	return nil
 }
diff --git a/mat/gradfn/softplus.go b/mat/gradfn/softplus.go
index 75008f8..8ed81e1 100644
--- a/mat/gradfn/softplus.go
+++ b/mat/gradfn/softplus.go
@@ -54,5 +54,15 @@ func (r *SoftPlus[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accParamGrad(r.beta, r.x, gy, func(v float64) float64 {
+		beta, threshold := r.beta.Value().Item().F64(), r.threshold.Value().Item().F64()
+		if v > threshold {
+			return 0
+		}
+		return (v*softPlusDeriv(0, 0, v, beta, threshold) - softPlus(0, 0, v, beta, threshold)) / beta
+	})
+	accParamGrad(r.threshold, r.x, gy, func(float64) float64 {
+		return 0
+	})
 	return nil
 }
diff --git a/mat/gradfn/softshrink.go b/mat/gradfn/softshrink.go
index ebfa3e9..226d849 100644
--- a/mat/gradfn/softshrink.go
+++ b/mat/gradfn/softshrink.go
@@ -44,5 +44,15 @@ func (r *SoftShrink[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accParamGrad(r.lambda, r.x, gy, func(v float64) float64 {
+		lambda := r.lambda.Value().Item().F64()
+		if v < -lambda {
+			return 1
+		}
+		if v > lambda {
+			return -1
+		}
+		return 0
+	})
 	return nil
 }
diff --git a/mat/gradfn/swishb.go b/mat/gradfn/swishb.go
index 4f74250..89a7349 100644
--- a/mat/gradfn/swishb.go
+++ b/mat/gradfn/swishb.go
@@ -48,15 +48,8 @@ func (r *SwishB[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
-	if r.beta.RequiresGrad() {
-		gb := r.beta.Value().(mat.Matrix).ZerosLike()
-		// FIXME: avoid casting to specific type
-		for i, x := range r.x.Value().Data().F64() {
-			deriv := swishBBetaDeriv(x, r.beta.Value().Item().F64())
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gb.AddScalarInPlace(deriv * gyi)
-		}
-		r.beta.AccGrad(gb)
-	}
+	accParamGrad(r.beta, r.x, gy, func(v float64) float64 {
+		return swishBBetaDeriv(v, r.beta.Value().Item().F64())
+	})
 	return nil
 }
diff --git a/mat/gradfn/threshold.go b/mat/gradfn/threshold.go
index 16a42b4..b4d677c 100644
--- a/mat/gradfn/threshold.go
+++ b/mat/gradfn/threshold.go
@@ -55,5 +55,14 @@ func (r *Threshold[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accParamGrad(r.threshold, r.x, gy, func(float64) float64 {
+		return 0
+	})
+	accParamGrad(r.k, r.x, gy, func(v float64) float64 {
+		if v > r.threshold.Value().Item().F64() {
+			return 0
+		}
+		return 1
+	})
 	return nil
 }
-- 
2.43.0


From 77a93de57d215a26b7194bf36598f5f50af2c133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:56 +0000
Subject: [PATCH 09/41] fix: overflow in the derivatives of swish and mish

---
 mat/gradfn/misc.go  | 18 +++++++-----------
 mat/gradfn/swish.go |  5 ++---
 2 files changed, 9 insertions(+), 14 deletions(-)

diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 6271685..bbbf67e 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -471,14 +471,13 @@ func swishB(_, _ int, v float64, beta ...float64) float64 {
 
 func swishBDeriv(_, _ int, v float64, beta ...float64) float64 {
 	prod := v * beta[0]
-	exp := math.Exp(prod)
-	return exp * (exp + prod + 1) / ((exp + 1) * (exp + 1))
+	s := 1 / (1 + math.Exp(-prod))
+	return s * (1 + prod*(1-s))
 }
 
 func swishBBetaDeriv(v, beta float64) float64 {
-	prod := v * beta
-	exp := math.Exp(-prod)
-	return (v * v * exp) / ((exp + 1) * (exp + 1))
+	s := 1 / (1 + math.Exp(-v*beta))
+	return v * v * s * (1 - s)
 }
 
 // Reference: "Mish: A Self Regularized Non-Monotonic Neural Activation Function" by Diganta Misra, 2019.
@@ -488,12 +487,9 @@ func mish(_, _ int, v float64) float64 {
 }
 
 func mishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	exp2 := math.Exp(2 * v)
-	exp3 := math.Exp(3 * v)
-	omega := 4.0*(v+1.0) + 4.0*exp2 + exp3 + exp*(4.0*v+6.0)
-	delta := 2*exp + exp2 + 2.0
-	return exp * (omega / (delta * delta))
+	t := math.Tanh(math.Log(1 + math.Exp(v)))
+	s := 1 / (1 + math.Exp(-v))
+	return t + v*s*(1-t*t)
 }
 
 func gelu(_, _ int, v float64) float64 {
diff --git a/mat/gradfn/swish.go b/mat/gradfn/swish.go
index 46925d6..533d4a7 100644
--- a/mat/gradfn/swish.go
+++ b/mat/gradfn/swish.go
@@ -49,7 +49,6 @@ func (l *Swish[O]) Backward(gy mat.Tensor) error {
 }
 
 func swishDeriv(_, _ int, v float64) float64 {
-	exp := math.Exp(v)
-	expPlusOne := exp + 1
-	return exp * (expPlusOne + v) / (expPlusOne * expPlusOne)
+	s := 1 / (1 + math.Exp(-v))
+	return s * (1 + v*(1-s))
 }
-- 
2.43.0


From 184a72d39489c539a111f2fce35836fcecb9095f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 10/41] fix: rotation of a vector by zero or by its full length

---
 mat/gradfn/rotater.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mat/gradfn/rotater.go b/mat/gradfn/rotater.go
index b52ce2f..f79f09b 100644
--- a/mat/gradfn/rotater.go
+++ b/mat/gradfn/rotater.go
@@ -43,6 +43,9 @@ func (r *RotateR[O]) Backward(gy mat.Tensor) error {
 
 func rotate(m mat.Matrix, i int) mat.Matrix {
 	size := m.Size()
+	if i == 0 || i == size {
+		return m.Clone()
+	}
 	left := m.Slice(0, 0, i, 1)
 	right := m.Slice(i, 0, size, 1)
 	return m.NewConcatV(right, left)
-- 
2.43.0


From 87ab9ba6f7f1ae5bb7b1afb33fca0dc690ca7bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:31 +0000
Subject: [PATCH 11/41] fix: a Backward refused for a missing gradient left the
 graph blocked

---
 ag/backward.go | 11 ++++++++---
 ag/operator.go | 23 ++++++++++++-----------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/ag/backward.go b/ag/backward.go
index 484a0f3..26c4969 100644
--- a/ag/backward.go
+++ b/ag/backward.go
@@ -26,6 +26,13 @@ func Backward(xs ...mat.Tensor) error {
 		return nil
 	}
 
+	// Refuse the request before changing the state of any operator.
+	for _, op := range ops {
+		if err := op.checkOutputGradient(); err != nil {
+			return err
+		}
+	}
+
 	// The three for loops below are intentionally executed in sequence.
 	// These steps must occur in this order, so the loops cannot be combined due to their sequential dependencies.
 
@@ -36,9 +43,7 @@ func Backward(xs ...mat.Tensor) error {
 
 	// 2. Assign the output gradients for each operator.
 	for _, op := range ops {
-		if err := op.assignOutputGradient(); err != nil {
-			return err
-		}
+		op.assignOutputGradient()
 	}
 
 	// 3. Process the backward pass for each operator in parallel using wait groups.
diff --git a/ag/operator.go b/ag/operator.go
index 49e2ce4..9404a84 100644
--- a/ag/operator.go
+++ b/ag/operator.go
@@ -233,20 +233,21 @@ func (o *Operator) AccGrad(grad mat.Tensor) {
 	}
 }
 
-func (o *Operator) assignOutputGradient() error {
-	grad := o.Value().Grad()
-
-	if !isNil(grad) {
-		o.pendingGrads--
-		return nil
+// checkOutputGradient returns an error if the operator has no gradient, and
+// it can't be assigned automatically because the operator is not a scalar.
+func (o *Operator) checkOutputGradient() error {
+	if isNil(o.Value().Grad()) && o.Value().Size() != 1 {
+		return fmt.Errorf("ag: missing gradient for %v", o)
 	}
+	return nil
+}
 
-	if o.Value().Size() == 1 {
-		o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
-		return nil
+func (o *Operator) assignOutputGradient() {
+	if !isNil(o.Value().Grad()) {
+		o.pendingGrads--
+		return
 	}
-
-	return fmt.Errorf("ag: missing gradient for %v", o)
+	o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
 }
 
 func (o *Operator) prepareBackwardPass() {
-- 
2.43.0


From eec460e7ee0384ae4ef7eace6399537ed31595e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 12/41] fix: an optimization step returned before its updates
 had finished

---
 optimizers/optimizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 2da4d08..a062a6f 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -68,6 +68,7 @@ func (o *Optimizer) Optimize() error {
 		}
 	}
 
+	wg.Wait() // Wait for all updates to finish before looking at their outcome
 	close(errCh)
 
 	if err, ok := <-errCh; ok {
-- 
2.43.0


From 2663bc00422d2e161bd67c01b710c704b5310513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 13/41] fix: a parameter shared by several models was updated
 concurrently

---
 optimizers/optimizer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index a062a6f..b1d317b 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -42,7 +42,14 @@ func (o *Optimizer) Optimize() error {
 	ctx, cancel := context.WithCancel(context.Background())
 	defer cancel()
 
+	seen := make(map[*nn.Param]struct{}) // a parameter may occur more than once
+
 	for param := range o.parameters(ctx) {
+		if _, ok := seen[param]; ok {
+			continue
+		}
+		seen[param] = struct{}{}
+
 		select {
 		case err := <-errCh:
 			cancel()  // As soon as an error occurs, stop the iteration over parameters
-- 
2.43.0


From d32d428f8e828ae670ff88f9fcfc73dae9179d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:04 +0000
Subject: [PATCH 14/41] fix: gradient clipping of parameters that have no
 gradient or are shared

---
 optimizers/gradclipper/clipper.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 95ee09a..ba928ba 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -81,7 +81,12 @@ func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 	defer cancel()
 
 	var allGrads []mat.Tensor
+	seen := make(map[*nn.Param]struct{}) // a parameter may occur more than once
 	for param := range parameters(ctx) {
+		if _, ok := seen[param]; ok || !param.HasGrad() {
+			continue
+		}
+		seen[param] = struct{}{}
 		allGrads = append(allGrads, param.Grad())
 	}
 	return allGrads
-- 
2.43.0


From 9c878a8cb2eb2d9604597f728c4f17ec9dbd4ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:59 +0000
Subject: [PATCH 15/41] fix: a saved AdamW optimizer was loaded as Adam

---
 optimizers/adam/adam.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/optimizers/adam/adam.go b/optimizers/adam/adam.go
index 4a494de..045db6b 100644
--- a/optimizers/adam/adam.go
+++ b/optimizers/adam/adam.go
@@ -73,7 +73,6 @@ type Adam struct {
 	Config
 	Alpha    float64
 	TimeStep int
-	adamw    bool
 }
 
 // New returns a new Adam optimizer, initialized according to the given configuration.
@@ -81,7 +80,6 @@ func New(c Config) *Adam {
 	adam := &Adam{
 		Config: c,
 		Alpha:  c.StepSize,
-		adamw:  c.Lambda != 0.0,
 	}
 	adam.IncExample() // initialize 'alpha' coefficient
 	return adam
@@ -172,7 +170,7 @@ func (o *Adam) OptimizeParams(param *nn.Param) error {
 		return fmt.Errorf("unsupported state type: %T, expected %T", param.State, &State{})
 	}
 
-	if o.adamw {
+	if o.Lambda != 0.0 { // AdamW
 		param.SubInPlace(o.calculateParamUpdateW(param.Grad().(mat.Matrix), state, param.Value().(mat.Matrix)))
 		param.ZeroGrad()
 		return nil
-- 
2.43.0


From 50f39dd77e4ac8f4016f3d862fd639fe380ab474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:34 +0000
Subject: [PATCH 16/41] fix: accumulating gradients in a loaded embedding table
 panicked

---
 nn/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nn/embedding/embedding.go b/nn/embedding/embedding.go
index 9652c70..f7f903d 100644
--- a/nn/embedding/embedding.go
+++ b/nn/embedding/embedding.go
@@ -19,6 +19,9 @@ type Embedding struct {
 func (e *Embedding) AccGrad(gx mat.Tensor) {
 	e.m.mu.Lock()
 	defer e.m.mu.Unlock()
+	if e.m.embedGradIdx == nil { // the model has not been created with New, but for example loaded
+		e.m.embedGradIdx = make(map[int]struct{})
+	}
 	e.m.embedGradIdx[e.idx] = struct{}{}
 	e.Param.AccGrad(gx)
 }
-- 
2.43.0


From f38ca82f2789ad13674177123b51d38156ff4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:44 +0000
Subject: [PATCH 17/41] fix: parameters after a nil or unrelated element of a
 slice or map were not visited

---
 nn/traversal.go | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 90cb188..6dee93c 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -88,17 +88,13 @@ func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
 		case int:
 			key = fmt.Sprintf("%d", k)
 		default:
-			return false // skip map if the key is not a string or an int
+			return true // skip entry if the key is not a string or an int
 		}
 
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch reflect.ValueOf(value).Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(value, name) {
-				return false
-			}
-		default:
-			return false // skip
+			pt.walkStructOrPtr(value, name)
 		}
 		return true
 	})
@@ -110,11 +106,7 @@ func (pt paramsTraversal) walkSlice(v reflect.Value, name string) {
 		p := v.Index(i)
 		switch p.Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(p.Interface(), name) {
-				return
-			}
-		default:
-			return // skip
+			pt.walkStructOrPtr(p.Interface(), name)
 		}
 	}
 }
@@ -129,17 +121,13 @@ func (pt paramsTraversal) walkMap(v reflect.Value, name string) {
 		case int:
 			key = fmt.Sprintf("%d", k)
 		default:
-			return // skip map if the key is not a string or an int
+			continue // skip entry if the key is not a string or an int
 		}
 
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch mapRange.Value().Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(mapRange.Value().Interface(), name) {
-				return
-			}
-		default:
-			return // skip
+			pt.walkStructOrPtr(mapRange.Value().Interface(), name)
 		}
 	}
 }
-- 
2.43.0


From 0861c63e51fc7c2763972ce13ea8b6496af74259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:52 +0000
Subject: [PATCH 18/41] fix: applying a function to an embedding table with
 gradients panicked

---
 nn/traversal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 6dee93c..e6953ce 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -30,7 +30,9 @@ type paramsTraversal struct {
 // walk iterates through all the parameters of m.
 func (pt paramsTraversal) walk(m any) {
 	if m, ok := m.(ParamsTraverser); ok {
-		m.TraverseParams(pt.paramsFunc)
+		if pt.paramsFunc != nil {
+			m.TraverseParams(pt.paramsFunc)
+		}
 		return
 	}
 	forEachField(m, func(field any, name string) {
-- 
2.43.0


From 09319c070e7578886d1ea864332f82cabc2623a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:00 +0000
Subject: [PATCH 19/41] fix: the strict traversal visited the parameters of
 sub-models with a custom traversal

---
 nn/traversal.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index e6953ce..01779cd 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -61,10 +61,14 @@ func (pt paramsTraversal) walkStructOrPtr(item any, name string) bool {
 			pt.paramsFunc(itemT)
 		}
 	case ParamsTraverser:
+		m, isModel := item.(Model)
+		if isModel && !pt.exploreSubModels {
+			break
+		}
 		if pt.paramsFunc != nil {
 			itemT.TraverseParams(pt.paramsFunc)
 		}
-		if m, ok := item.(Model); ok && pt.modelsFunc != nil {
+		if isModel && pt.modelsFunc != nil {
 			pt.modelsFunc(m)
 		}
 	case Model:
-- 
2.43.0


From aad56aa68631844901da120acbc424b5b454f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:05 +0000
Subject: [PATCH 20/41] fix: embeddings were still traversed for training after
 their gradients had been zeroed

---
 nn/embedding/model.go | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/nn/embedding/model.go b/nn/embedding/model.go
index 4370535..d8d8f2d 100644
--- a/nn/embedding/model.go
+++ b/nn/embedding/model.go
@@ -7,6 +7,7 @@ package embedding
 import (
 	"encoding/gob"
 	"log"
+	"sort"
 	"sync"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -49,11 +50,31 @@ func New[T float.DType](size int, dim int) *Model {
 
 // TraverseParams allows embeddings with gradients to be traversed for optimization.
 func (m *Model) TraverseParams(callback func(param *nn.Param)) {
-	for idx := range m.embedGradIdx {
+	for _, idx := range m.indicesWithGrad() {
 		callback(m.Weights[idx])
 	}
 }
 
+// indicesWithGrad returns the indices of the embeddings with gradients, in
+// increasing order. Gradients may have been zeroed through the parameters.
+func (m *Model) indicesWithGrad() []int {
+	if m == nil {
+		return nil
+	}
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	indices := make([]int, 0, len(m.embedGradIdx))
+	for idx := range m.embedGradIdx {
+		if m.Weights[idx].HasGrad() {
+			indices = append(indices, idx)
+		} else {
+			delete(m.embedGradIdx, idx)
+		}
+	}
+	sort.Ints(indices)
+	return indices
+}
+
 func (m *Model) Embedding(idx int) (*Embedding, error) {
 	if idx < 0 || idx >= m.Size {
 		return nil, nn.ErrInvalidIndex
@@ -102,9 +123,7 @@ func (m *Model) checkInput(input []int) error {
 }
 
 func (m *Model) CountEmbedWithGrad() int {
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	return len(m.embedGradIdx)
+	return len(m.indicesWithGrad())
 }
 
 func (m *Model) ZeroGrad() {
-- 
2.43.0


From 3a38659af82547b82a08efd97780f6774a5e6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 21/41] fix: a decoded matrix shared its memory with the
 encoded data

---
 mat/dense_marshaling.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index 84e8dd6..d307a79 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -132,5 +132,8 @@ func bytesToSlice[T any](b []byte, length int) []T {
 	if len(b) == 0 {
 		return []T{}
 	}
-	return unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length)
+	// The values are copied, so that the matrix does not depend on the encoded data.
+	s := make([]T, length)
+	copy(s, unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length))
+	return s
 }
-- 
2.43.0


From 0cddb4106113e24790530e972fe2258861ca6c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 22/41] fix: decoding truncated matrix data panicked

---
 mat/dense_marshaling.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index d307a79..bbabc18 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -31,7 +31,14 @@ func (d *Dense[T]) MarshalBinary() ([]byte, error) {
 }
 
 // UnmarshalBinary unmarshals a binary representation of a Dense matrix.
-func (d *Dense[T]) UnmarshalBinary(data []byte) error {
+func (d *Dense[T]) UnmarshalBinary(data []byte) (err error) {
+	defer func() {
+		// Reading malformed data, such as truncated data, goes out of bounds.
+		if r := recover(); r != nil {
+			err = fmt.Errorf("mat: malformed dense matrix data: %v", r)
+		}
+	}()
+	data = data[:len(data):len(data)]
 	switch any(T(0)).(type) {
 	case float32:
 		return d.unmarshalBinaryFloat32(data)
@@ -74,15 +81,11 @@ func (d *Dense[T]) unmarshalBinaryFloat32(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
-	d.requiresGrad = raw.RequiresFrad()
-
-	d.shape = make([]int, raw.ShapeLength())
+	shape := make([]int, raw.ShapeLength())
 	for i := 0; i < raw.ShapeLength(); i++ {
-		d.shape[i] = int(raw.Shape(i))
+		shape[i] = int(raw.Shape(i))
 	}
-
-	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
-	return nil
+	return d.setDecoded(raw.RequiresFrad(), shape, bytesToSlice[T](raw.DataBytes(), raw.DataLength()))
 }
 
 func (d *Dense[T]) marshalBinaryFloat64() ([]byte, error) {
@@ -117,14 +120,24 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
-	d.requiresGrad = raw.RequiresGrad()
-
-	d.shape = make([]int, raw.ShapeLength())
+	shape := make([]int, raw.ShapeLength())
 	for i := 0; i < raw.ShapeLength(); i++ {
-		d.shape[i] = int(raw.Shape(i))
+		shape[i] = int(raw.Shape(i))
 	}
+	return d.setDecoded(raw.RequiresGrad(), shape, bytesToSlice[T](raw.DataBytes(), raw.DataLength()))
+}
 
-	d.data = bytesToSlice[T](raw.DataBytes(), raw.DataLength())
+// setDecoded sets what has been decoded, if it is consistent.
+func (d *Dense[T]) setDecoded(requiresGrad bool, shape []int, data []T) error {
+	if err := checkShape(shape...); err != nil {
+		return err
+	}
+	if size := calculateSize(shape); len(data) != size {
+		return fmt.Errorf("mat: wrong dimensions. Expected %d, got %d", size, len(data))
+	}
+	d.requiresGrad = requiresGrad
+	d.shape = shape
+	d.data = data
 	return nil
 }
 
-- 
2.43.0


From 54d9b3fcac05e50d843aa9b3c3ab3a6cd8af2fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 23/41] fix: an error on closing a saved file was not reported

---
 nn/gob.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gob.go b/nn/gob.go
index de66e13..3fe0059 100644
--- a/nn/gob.go
+++ b/nn/gob.go
@@ -27,7 +27,7 @@ func Dump(obj any, w io.Writer) error {
 
 // DumpToFile saves a serialized object to a file.
 // See Dump for further details.
-func DumpToFile[T any](obj T, filename string) error {
+func DumpToFile[T any](obj T, filename string) (err error) {
 	f, err := os.Create(filename)
 	if err != nil {
 		return err
-- 
2.43.0


From 303b202e5eb38ed11fbe3eed8148cc9085831c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:35 +0000
Subject: [PATCH 24/41] fix: loading an object also consumed the objects that
 follow it

---
 nn/gob.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nn/gob.go b/nn/gob.go
index 3fe0059..6bb48da 100644
--- a/nn/gob.go
+++ b/nn/gob.go
@@ -46,7 +46,9 @@ func DumpToFile[T any](obj T, filename string) (err error) {
 // Load uses Gob to deserialize objects to memory.
 func Load[T any](r io.Reader) (T, error) {
 	var obj T
-	if err := gob.NewDecoder(bufio.NewReader(r)).Decode(&obj); err != nil {
+	// The decoder buffers the reader only if it is necessary, otherwise it
+	// leaves the data that follows the object to be read.
+	if err := gob.NewDecoder(r).Decode(&obj); err != nil {
 		return obj, err
 	}
 	return obj, nil
-- 
2.43.0


From 6e317394ebc23e825273afcbb0ea18222491c55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 25/41] fix: NaN gradient of a power with exponent zero

---
 mat/gradfn/pow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mat/gradfn/pow.go b/mat/gradfn/pow.go
index 0d4ab3b..3a2336e 100644
--- a/mat/gradfn/pow.go
+++ b/mat/gradfn/pow.go
@@ -40,6 +40,11 @@ func (r *Pow[O]) Backward(gy mat.Tensor) error {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
+		if r.power == 0 {
+			// x^0 is constant, also where x^(-1) is not finite
+			r.x.AccGrad(r.x.Value().(mat.Matrix).ZerosLike())
+			return nil
+		}
 		gx := r.x.Value().(mat.Matrix).Pow(r.power - 1)
 		gx.ProdScalarInPlace(r.power).ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
-- 
2.43.0


From 7c00860a682449a3194f75dfde56eb62e163172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 26/41] fix: the S-LSTM applied the input weights to the
 sentence state

---
 nn/gnn/slstm/slstm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gnn/slstm/slstm.go b/nn/gnn/slstm/slstm.go
index 27ceb12..f3e6724 100644
--- a/nn/gnn/slstm/slstm.go
+++ b/nn/gnn/slstm/slstm.go
@@ -185,7 +185,7 @@ func (m *Model) computeVg(s *State, prevG mat.Tensor) {
 	s.VfPrevG = ag.Mul(m.CellGate.V, prevG)
 	s.VsPrevG = ag.Mul(m.SentCellGate.V, prevG)
 	s.VoPrevG = ag.Mul(m.OutputGate.V, prevG)
-	s.VuPrevG = ag.Mul(m.InputActivation.U, prevG)
+	s.VuPrevG = ag.Mul(m.InputActivation.V, prevG)
 }
 
 func (m *Model) updateHiddenNodes(s *State, prevH []mat.Tensor, prevC []mat.Tensor, prevG mat.Tensor) ([]mat.Tensor, []mat.Tensor) {
-- 
2.43.0


From 214f6c41102971342f943c2a935ccf297d09ec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 27/41] fix: overflow and underflow in the negative log loss of
 the CRF

---
 nn/crf/crf.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/nn/crf/crf.go b/nn/crf/crf.go
index c85258d..6019b64 100644
--- a/nn/crf/crf.go
+++ b/nn/crf/crf.go
@@ -65,7 +65,7 @@ func (m *Model) totalScore(predicted []mat.Tensor) mat.Tensor {
 		totalVector = m.totalScoreStep(totalVector, ag.SeparateVec(predicted[i]))
 	}
 	totalVector = m.totalScoreEnd(totalVector)
-	return ag.Log(ag.ReduceSum(ag.Concat(totalVector...)))
+	return ag.LogSumExp(totalVector...)
 }
 
 func (m *Model) totalScoreStart(stepVec mat.Tensor) []mat.Tensor {
@@ -79,24 +79,20 @@ func (m *Model) totalScoreStart(stepVec mat.Tensor) []mat.Tensor {
 func (m *Model) totalScoreEnd(stepVec []mat.Tensor) []mat.Tensor {
 	scores := make([]mat.Tensor, m.Size)
 	for i := 0; i < m.Size; i++ {
-		vecTrans := ag.Add(stepVec[i], ag.At(m.TransitionScores, i+1, 0))
-		scores[i] = ag.Add(scores[i], ag.Exp(vecTrans))
+		scores[i] = ag.Add(stepVec[i], ag.At(m.TransitionScores, i+1, 0))
 	}
 	return scores
 }
 
 func (m *Model) totalScoreStep(totalVec []mat.Tensor, stepVec []mat.Tensor) []mat.Tensor {
 	scores := make([]mat.Tensor, m.Size)
-	for i := 0; i < m.Size; i++ {
-		nodei := totalVec[i]
-		for j := 0; j < m.Size; j++ {
-			vecSum := ag.Add(nodei, stepVec[j])
-			vecTrans := ag.Add(vecSum, ag.At(m.TransitionScores, i+1, j+1))
-			scores[j] = ag.Add(scores[j], ag.Exp(vecTrans))
+	for j := 0; j < m.Size; j++ {
+		vecTrans := make([]mat.Tensor, m.Size)
+		for i := 0; i < m.Size; i++ {
+			vecSum := ag.Add(totalVec[i], stepVec[j])
+			vecTrans[i] = ag.Add(vecSum, ag.At(m.TransitionScores, i+1, j+1))
 		}
-	}
-	for i := 0; i < m.Size; i++ {
-		scores[i] = ag.Log(scores[i])
+		scores[j] = ag.LogSumExp(vecTrans...)
 	}
 	return scores
 }
-- 
2.43.0


From 165d267d519d7388f78a30a04b519ed28705eb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 28/41] fix: causal mask of attention with cached keys

---
 nn/attention/attention.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nn/attention/attention.go b/nn/attention/attention.go
index 511f5a0..8d1b20c 100644
--- a/nn/attention/attention.go
+++ b/nn/attention/attention.go
@@ -23,6 +23,9 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 	causalMaskEnabled := useCausalMask && len(q) > 1
 	kRows := k.Value().Shape()[0]
 
+	// when there are more keys than queries, the queries are the last positions of the sequence
+	offset := max(kRows-len(q), 0)
+
 	kqi := make([]mat.Tensor, len(q))
 	for i, qi := range q {
 		kqi[i] = ag.Mul(k, qi)
@@ -32,7 +35,7 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 		scores := ag.ProdScalar(kqii, scaleFactor)
 
 		if causalMaskEnabled {
-			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(i, kRows))) // TODO: use external cache for causal mask?
+			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(i+offset, kRows))) // TODO: use external cache for causal mask?
 			scores = ag.Add(scores, causalMask)
 		}
 
-- 
2.43.0


From b1dafcf8ca0525d5fb2a932a1a04f4c74f92b54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 29/41] fix: back-propagation through self-attention with
 cached keys and values

---
 nn/attention/selfattention/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nn/attention/selfattention/model.go b/nn/attention/selfattention/model.go
index fd2faeb..985f766 100644
--- a/nn/attention/selfattention/model.go
+++ b/nn/attention/selfattention/model.go
@@ -86,8 +86,8 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, []mat.Ten
 		v := m.Value.Forward(x...)
 
 		if hasCache {
-			pk = ag.AppendRows(cache[0], k...)
-			pv = ag.AppendRows(cache[1], v...)
+			pk = ag.AppendRows(cache[0], ag.Map(ag.T, k)...)
+			pv = ag.AppendRows(cache[1], ag.Map(ag.T, v)...)
 		} else {
 			pk = ag.Stack(k...)
 			pv = ag.Stack(v...)
-- 
2.43.0


From 1ad26cb2fb1775f4b86676d8fcc9fad6573930c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:41 +0000
Subject: [PATCH 30/41] fix: multi-head attention overwrote the operands of its
 concatenations, and Backward never ended

---
 nn/attention/multiheadattention/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nn/attention/multiheadattention/model.go b/nn/attention/multiheadattention/model.go
index 546a885..f313f37 100644
--- a/nn/attention/multiheadattention/model.go
+++ b/nn/attention/multiheadattention/model.go
@@ -95,8 +95,8 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, [][]mat.T
 
 func (m *Model) project(heads [][]mat.Tensor, seqLen int) []mat.Tensor {
 	n := len(heads)
-	buf := make([]mat.Tensor, seqLen*n)
-	concat := buf[:0] // shares the same backing array with buf
+	buf := make([]mat.Tensor, seqLen*n) // the operands of the concatenations below
+	concat := make([]mat.Tensor, 0, seqLen)
 
 	for i := 0; i < seqLen; i++ {
 		buf2 := buf[i*n : i*n+n]
-- 
2.43.0


From 6d72aecc1537ba170a180c95b3e334e91dc99d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 31/41] fix: the norm of a vector with negative elements

---
 mat/dense.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index b2018a6..4d1f92f 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1294,7 +1294,7 @@ func (d *Dense[T]) norm(pow float64) float64 {
 	}
 	var s float64
 	for _, x := range d.data {
-		s += math.Pow(float64(x), pow)
+		s += math.Pow(math.Abs(float64(x)), pow)
 	}
 	return math.Pow(s, 1/pow)
 }
-- 
2.43.0


From 37651574c613aadd065f65f71428b8bb87218bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 32/41] fix: Range and SplitV beyond the end of a vector
 returned stale memory

---
 mat/dense.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index 4d1f92f..8110143 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1149,6 +1149,9 @@ func (d *Dense[T]) Range(start, end int) Matrix {
 	if end < 0 || start < 0 {
 		panic("mat: negative values for range indices are not allowed")
 	}
+	if end > len(d.data) {
+		panic("mat: range indices out of bounds")
+	}
 	return NewDense[T](WithBacking(copySlice(d.data[start:end])))
 }
 
@@ -1169,7 +1172,7 @@ func (d *Dense[T]) SplitV(sizes ...int) []Matrix {
 		}
 		startIndex := offset
 		offset = startIndex + size
-		if startIndex >= len(d.data) && offset > startIndex {
+		if offset > len(d.data) {
 			panic("mat: sizes out of bounds")
 		}
 		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
-- 
2.43.0


From 1dd44d9720d27e251a6e900ca3cd0bfaaca163da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 33/41] fix: the vectorized logarithm of zero, subnormal,
 negative and non-finite values

---
 mat/internal/matfuncs/log_amd64.go | 39 ++++++++++++++++--------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/mat/internal/matfuncs/log_amd64.go b/mat/internal/matfuncs/log_amd64.go
index 90e718c..2029cd1 100644
--- a/mat/internal/matfuncs/log_amd64.go
+++ b/mat/internal/matfuncs/log_amd64.go
@@ -14,19 +14,16 @@ func Log32(x, y []float32) {
 		return
 	}
 
+	_ = y[len(x)-1]
+
 	if hasAVX2 {
-		_ = y[len(x)-1]
 		max := len(x) - 8
 		for i := 0; i <= max; i += 8 {
-			LogAVX32(x[i:], y[i:])
-		}
-
-		if max > 0 {
-			for i, v := range x[:max+1] {
-				if v == 0.0 {
-					y[i] = float32(math.Inf(-1))
-				}
+			if !allNormalPositive(x[i : i+8]) {
+				log(x[i:i+8], y[i:i+8])
+				continue
 			}
+			LogAVX32(x[i:], y[i:])
 		}
 
 		mod := len(x) % 8
@@ -37,18 +34,13 @@ func Log32(x, y []float32) {
 		return
 	}
 
-	_ = y[len(x)-1]
 	max := len(x) - 4
 	for i := 0; i <= max; i += 4 {
-		LogSSE32(x[i:], y[i:])
-	}
-
-	if max > 0 {
-		for i, v := range x[:max+1] {
-			if v == 0.0 {
-				y[i] = float32(math.Inf(-1))
-			}
+		if !allNormalPositive(x[i : i+4]) {
+			log(x[i:i+4], y[i:i+4])
+			continue
 		}
+		LogSSE32(x[i:], y[i:])
 	}
 
 	mod := len(x) % 4
@@ -58,6 +50,17 @@ func Log32(x, y []float32) {
 	}
 }
 
+// allNormalPositive reports whether all elements are positive, finite and not
+// subnormal: the only values for which the vectorized logarithm is accurate.
+func allNormalPositive(x []float32) bool {
+	for _, v := range x {
+		if !(v >= 0x1p-126 && v <= math.MaxFloat32) {
+			return false
+		}
+	}
+	return true
+}
+
 // Log64 computes the natural logarithm of each element of x, storing the result in y (64 bits).
 func Log64(x, y []float64) {
 	log(x, y)
-- 
2.43.0


From 9f94f0347b2c2132389836f3016aebf7c8f0a263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 34/41] fix: the vectorized exponential of large and non-finite
 values

---
 mat/internal/matfuncs/exp_amd64.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/mat/internal/matfuncs/exp_amd64.go b/mat/internal/matfuncs/exp_amd64.go
index 6df735b..85acc82 100644
--- a/mat/internal/matfuncs/exp_amd64.go
+++ b/mat/internal/matfuncs/exp_amd64.go
@@ -12,10 +12,15 @@ func Exp32(x, y []float32) {
 		return
 	}
 
+	_ = y[len(x)-1]
+
 	if hasAVX2 {
-		_ = y[len(x)-1]
 		max := len(x) - 8
 		for i := 0; i <= max; i += 8 {
+			if !allExpInRange(x[i : i+8]) {
+				exp(x[i:i+8], y[i:i+8])
+				continue
+			}
 			ExpAVX32(x[i:], y[i:])
 		}
 
@@ -27,9 +32,12 @@ func Exp32(x, y []float32) {
 		return
 	}
 
-	_ = y[len(x)-1]
 	max := len(x) - 4
 	for i := 0; i <= max; i += 4 {
+		if !allExpInRange(x[i : i+4]) {
+			exp(x[i:i+4], y[i:i+4])
+			continue
+		}
 		ExpSSE32(x[i:], y[i:])
 	}
 
@@ -40,6 +48,17 @@ func Exp32(x, y []float32) {
 	}
 }
 
+// allExpInRange reports whether all elements are in the range in which the
+// vectorized exponential, which saturates, is accurate.
+func allExpInRange(x []float32) bool {
+	for _, v := range x {
+		if !(v >= -87 && v <= 88) {
+			return false
+		}
+	}
+	return true
+}
+
 // Exp64 computes the base-e exponential of each element of x, storing the result in y (64 bits).
 func Exp64(x, y []float64) {
 	exp(x, y)
-- 
2.43.0


From 34e39470f454e98b0780454b9278d5c26b19f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 35/41] fix: a refused call left the shared random generator
 locked forever

---
 mat/rand/lockedrand.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mat/rand/lockedrand.go b/mat/rand/lockedrand.go
index c51c5f8..7c28f44 100644
--- a/mat/rand/lockedrand.go
+++ b/mat/rand/lockedrand.go
@@ -71,8 +71,8 @@ func (lr *LockedRand) Uint64() (n uint64) {
 // for any n that is not a power of 2.
 func (lr *LockedRand) Uint64n(n uint64) uint64 {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	n = lr.r.Uint64n(n)
-	lr.lk.Unlock()
 	return n
 }
 
@@ -96,8 +96,8 @@ func (lr *LockedRand) Int() (n int) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int63n(n int64) (r int64) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int63n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -105,8 +105,8 @@ func (lr *LockedRand) Int63n(n int64) (r int64) {
 // It panics if n <= 0.
 func (lr *LockedRand) Int31n(n int32) (r int32) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Int31n(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -114,8 +114,8 @@ func (lr *LockedRand) Int31n(n int32) (r int32) {
 // It panics if n <= 0.
 func (lr *LockedRand) Intn(n int) (r int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Intn(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -149,8 +149,8 @@ func (lr *LockedRand) Float64() (n float64) {
 // Perm returns, as a slice of n ints, a pseudo-random permutation of the integers [0,n).
 func (lr *LockedRand) Perm(n int) (r []int) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	r = lr.r.Perm(n)
-	lr.lk.Unlock()
 	return
 }
 
@@ -169,6 +169,6 @@ func (lr *LockedRand) Read(p []byte) (n int, err error) {
 // swap swaps the elements with indexes i and j.
 func (lr *LockedRand) Shuffle(i int, swap func(i int, j int)) {
 	lr.lk.Lock()
+	defer lr.lk.Unlock()
 	lr.r.Shuffle(i, swap)
-	lr.lk.Unlock()
 }
-- 
2.43.0


From c1ca3ddcaa2c759ce223a78f370cc6ce5725f1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 36/41] fix: unique random choices never contained zero, and
 never ended when it was needed

---
 mat/rand/misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index b6bf3ce..e94b47c 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -51,7 +51,7 @@ func GetUniqueRandomInt(n, max int, valid func(r int) bool) []int {
 	a := make([]int, n)
 	for i := 0; i < n; i++ {
 		r := rand.Intn(max) // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = rand.Intn(max) // Warning: use global rand
 		}
 		a[i] = r
@@ -67,7 +67,7 @@ func GetUniqueRandomIndices(n int, indices []int, valid func(r int) bool) []int
 		// The generic type is irrelevant, since the given generator is nil.
 		// TODO: ugly API of ShuffleInPlace to be refactored
 		r := ShuffleInPlace(indices, nil)[0] // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = ShuffleInPlace(indices, nil)[0] // Warning: use global rand
 		}
 		a[i] = r
-- 
2.43.0


From 2db8560826fd9e897d8620cd0769b132c0201c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 37/41] fix: the float32 Bernoulli distribution yielded 2 for a
 sample that rounds to 1

---
 mat/rand/bernulli/bernulli.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mat/rand/bernulli/bernulli.go b/mat/rand/bernulli/bernulli.go
index 95fff23..870c664 100644
--- a/mat/rand/bernulli/bernulli.go
+++ b/mat/rand/bernulli/bernulli.go
@@ -5,8 +5,6 @@
 package bernulli
 
 import (
-	"math"
-
 	"github.com/nlpodyssey/spago/mat"
 	"github.com/nlpodyssey/spago/mat/float"
 	"github.com/nlpodyssey/spago/mat/rand"
@@ -19,12 +17,10 @@ func Distribution[T float.DType](r, c int, prob T, generator *rand.LockedRand) m
 	dist := uniform.New(0.0, 1.0, generator)
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-			val := T(dist.Next())
-			fl := math.Floor(float64(val))
-			if val < prob {
-				out.SetScalar(float.Interface(fl), i, j)
+			if dist.Next() < float64(prob) {
+				out.SetScalar(float.Interface(0.0), i, j)
 			} else {
-				out.SetScalar(float.Interface(fl+1), i, j)
+				out.SetScalar(float.Interface(1.0), i, j)
 			}
 		}
 	}
-- 
2.43.0


From bb5e08adacbbd52db469eb2ec1d432aaee09a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:14 +0000
Subject: [PATCH 38/41] fix: damaged shape of encoded matrix could exhaust the
 memory

---
 mat/dense_marshaling.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index bbabc18..1b17600 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -81,9 +81,9 @@ func (d *Dense[T]) unmarshalBinaryFloat32(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
-	shape := make([]int, raw.ShapeLength())
-	for i := 0; i < raw.ShapeLength(); i++ {
-		shape[i] = int(raw.Shape(i))
+	shape, err := decodeShape(raw.ShapeLength(), raw.Shape)
+	if err != nil {
+		return err
 	}
 	return d.setDecoded(raw.RequiresFrad(), shape, bytesToSlice[T](raw.DataBytes(), raw.DataLength()))
 }
@@ -120,13 +120,26 @@ func (d *Dense[T]) unmarshalBinaryFloat64(data []byte) error {
 		return fmt.Errorf("mat: unexpected dtype %v", raw.Dtype())
 	}
 
-	shape := make([]int, raw.ShapeLength())
-	for i := 0; i < raw.ShapeLength(); i++ {
-		shape[i] = int(raw.Shape(i))
+	shape, err := decodeShape(raw.ShapeLength(), raw.Shape)
+	if err != nil {
+		return err
 	}
 	return d.setDecoded(raw.RequiresGrad(), shape, bytesToSlice[T](raw.DataBytes(), raw.DataLength()))
 }
 
+// decodeShape reads a shape of the given length, which is checked first since
+// malformed data can make it arbitrarily large.
+func decodeShape(length int, dim func(i int) int32) ([]int, error) {
+	if length < 1 || length > 2 {
+		return nil, fmt.Errorf("mat: malformed dense matrix data: %d dimensions", length)
+	}
+	shape := make([]int, length)
+	for i := range shape {
+		shape[i] = int(dim(i))
+	}
+	return adjustShape(shape...), nil
+}
+
 // setDecoded sets what has been decoded, if it is consistent.
 func (d *Dense[T]) setDecoded(requiresGrad bool, shape []int, data []T) error {
 	if err := checkShape(shape...); err != nil {
-- 
2.43.0


From 442d650995037c3cdf3d01cb4ef3b7c61e855e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:11 +0000
Subject: [PATCH 39/41] fix: a gradient of zero times an infinite derivative
 (Sqrt, Pow at zero) gave NaN

The normalization layers guard their denominators, so that their values and
derivatives are finite for inputs of zeros (or equal elements), but the backward
pass of the square root in zero turned all gradients into NaN. So did the focal
loss with 0 < gamma < 1 for a predicted probability of one.
---
 mat/gradfn/chain.go | 21 +++++++++++++++++++++
 mat/gradfn/pow.go   |  4 ++--
 mat/gradfn/sqrt.go  |  3 +--
 3 files changed, 24 insertions(+), 4 deletions(-)
 create mode 100644 mat/gradfn/chain.go

diff --git a/mat/gradfn/chain.go b/mat/gradfn/chain.go
new file mode 100644
index 0000000..10e345c
--- /dev/null
+++ b/mat/gradfn/chain.go
@@ -0,0 +1,21 @@
+// Copyright 2023 spaGO Authors. All rights reserved.
+// Use of this source code is governed by a BSD-style
+// license that can be found in the LICENSE file.
+
+package gradfn
+
+import "github.com/nlpodyssey/spago/mat"
+
+// chainInPlace multiplies the derivatives dx with the output gradients gy.
+//
+// Where there is no gradient to propagate, the result is zero, even if the
+// derivative is not finite there: for example, that of the square root in zero.
+func chainInPlace(dx, gy mat.Matrix) mat.Matrix {
+	dx.ProdInPlace(gy)
+	return dx.ApplyInPlace(func(i, j int, v float64) float64 {
+		if v != v && gy.ScalarAt(i, j).F64() == 0 {
+			return 0
+		}
+		return v
+	}, dx)
+}
diff --git a/mat/gradfn/pow.go b/mat/gradfn/pow.go
index 3a2336e..cee063d 100644
--- a/mat/gradfn/pow.go
+++ b/mat/gradfn/pow.go
@@ -46,8 +46,8 @@ func (r *Pow[O]) Backward(gy mat.Tensor) error {
 			return nil
 		}
 		gx := r.x.Value().(mat.Matrix).Pow(r.power - 1)
-		gx.ProdScalarInPlace(r.power).ProdInPlace(gy.(mat.Matrix))
-		r.x.AccGrad(gx)
+		gx.ProdScalarInPlace(r.power)
+		r.x.AccGrad(chainInPlace(gx, gy.(mat.Matrix)))
 	}
 	return nil
 }
diff --git a/mat/gradfn/sqrt.go b/mat/gradfn/sqrt.go
index 7af1d75..e263344 100644
--- a/mat/gradfn/sqrt.go
+++ b/mat/gradfn/sqrt.go
@@ -40,8 +40,7 @@ func (r *Sqrt[O]) Backward(gy mat.Tensor) error {
 	if r.x.RequiresGrad() {
 		gx := r.x.Value().(mat.Matrix).Pow(-.5)
 		gx.ProdScalarInPlace(.5)
-		gx.ProdInPlace(gy.(mat.Matrix))
-		r.x.AccGrad(gx)
+		r.x.AccGrad(chainInPlace(gx, gy.(mat.Matrix)))
 	}
 	return nil
 }
-- 
2.43.0


From e707162017af8ffafa28e46996d8ae1a01a410eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:03 +0000
Subject: [PATCH 40/41] fix: ReplaceValue keeps whether the param requires
 gradients

The replacement's own flag took over, so that a plain matrix given to
ReplaceValue silently stopped the training of the param (and a frozen
param could start to train again).
---
 nn/param.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nn/param.go b/nn/param.go
index 21c6b5e..78f81a4 100644
--- a/nn/param.go
+++ b/nn/param.go
@@ -30,7 +30,10 @@ func (p *Param) WithGrad(value bool) *Param {
 	return p
 }
 
+// ReplaceValue replaces the value of the param, and discards the state of the
+// optimization algorithm. Whether the param requires gradients does not change.
 func (p *Param) ReplaceValue(value mat.Matrix) {
+	value.SetRequiresGrad(p.RequiresGrad())
 	p.Matrix = value
 	p.State = nil
 }
-- 
2.43.0


From 3e3679969d3b05b84012e8500920123053c69d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:34 +0000
Subject: [PATCH 41/41] fix: WeightedChoice chose the first index, whatever its
 probability, when the rounded cumulative probability stayed below the drawn
 number

---
 mat/rand/misc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index e94b47c..a89d088 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -36,13 +36,17 @@ func WeightedChoice[T float.DType](dist []T) int {
 		panic(fmt.Sprintf("rand: unexpected type %T", T(0)))
 	}
 	var cumulativeProb T
+	last := 0 // the last index whose probability is not zero
 	for i, prob := range dist {
+		if prob > 0 {
+			last = i
+		}
 		cumulativeProb += prob
 		if rnd < cumulativeProb {
 			return i
 		}
 	}
-	return 0
+	return last // the rounded cumulative probability may remain below one
 }
 
 // GetUniqueRandomInt generates n mutually exclusive integers up to max, using the default random source.
-- 
2.43.0

