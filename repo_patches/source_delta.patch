From 06a86fdfeda9bed28b4e03fe9d6a4669fca2eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 01/36] fix: SetRow of a row-array matrix fails for every row
 but the first

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 2b2da55..bd2264d 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -707,7 +707,7 @@ func (a2drrm *Array2DRowRealMatrix) SetRow(row int, array []float64) {
 	if len(array) != nCols {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
-	copy(a2drrm.data[row][0:row+nCols], array[0:nCols])
+	copy(a2drrm.data[row][0:nCols], array[0:nCols])
 }
 
 func (a2drrm *Array2DRowRealMatrix) RowMatrixAt(row int) RealMatrix {
-- 
2.43.0


From 97838264f9a76432332cf044c41ed7830c13ea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 02/36] fix: row-array matrix times a vector of another
 implementation dereferences nil

---
 array_2d_row_real_matrix.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index bd2264d..0c2e37b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -470,15 +470,15 @@ func (a2drrm *Array2DRowRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
 		for row := 0; row < nRows; row++ {
 			var sum float64
 			for i := 0; i < nCols; i++ {
-				sum += a2drrm.data[row][i] * v.At(i)
+				sum += a2drrm.data[row][i] * vec.At(i)
 			}
 			out[row] = sum
 		}
@@ -500,15 +500,15 @@ func (a2drrm *Array2DRowRealMatrix) PreMultiplyVector(vec RealVector) RealVector
 	} else {
 		nRows := a2drrm.RowDimension()
 		nCols := a2drrm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
 		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += a2drrm.data[i][col] * v.At(i)
+				sum += a2drrm.data[i][col] * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From 5f290d44f95c8f6c42fd2d5d827a9951b6f115b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:48 +0000
Subject: [PATCH 03/36] fix: block matrix operations on a vector of another
 implementation dereference nil

---
 block_real_matrix.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 9f8a6c0..dc9dd0c 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -743,8 +743,8 @@ func (brm *BlockRealMatrix) RowVectorAt(row int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetRowVector(row int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetRow(row, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetRow(row, v.DataRef())
 	} else {
 		if err := checkRowIndex(brm, row); err != nil {
 			panic(err)
@@ -784,8 +784,8 @@ func (brm *BlockRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (brm *BlockRealMatrix) SetColumnVector(column int, vec RealVector) {
-	if vec, ok := vec.(*ArrayRealVector); ok {
-		brm.SetColumn(column, vec.DataRef())
+	if v, ok := vec.(*ArrayRealVector); ok {
+		brm.SetColumn(column, v.DataRef())
 	} else {
 		if err := checkColumnIndex(brm, column); err != nil {
 			panic(err)
@@ -977,8 +977,8 @@ func (brm *BlockRealMatrix) OperateVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nCols {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nCols))
+		if vec.Dimension() != nCols {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nCols))
 		}
 
 		out = make([]float64, nRows)
@@ -1046,15 +1046,15 @@ func (brm *BlockRealMatrix) PreMultiplyVector(vec RealVector) RealVector {
 	} else {
 		nRows := brm.RowDimension()
 		nCols := brm.ColumnDimension()
-		if v.Dimension() != nRows {
-			panic(dimensionsMismatchSimpleErrorf(v.Dimension(), nRows))
+		if vec.Dimension() != nRows {
+			panic(dimensionsMismatchSimpleErrorf(vec.Dimension(), nRows))
 		}
 
-		out := make([]float64, nCols)
+		out = make([]float64, nCols)
 		for col := 0; col < nCols; col++ {
 			var sum float64
 			for i := 0; i < nRows; i++ {
-				sum += brm.At(i, col) * v.At(i)
+				sum += brm.At(i, col) * vec.At(i)
 			}
 			out[col] = sum
 		}
-- 
2.43.0


From 3a331094d0fbac333645b24e19502de74d6a772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 04/36] fix: SetColumnVector of a row-array matrix ignores an
 invalid column index

---
 array_2d_row_real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 0c2e37b..a66c21b 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -795,7 +795,9 @@ func (a2drrm *Array2DRowRealMatrix) ColumnVectorAt(column int) RealVector {
 }
 
 func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector) {
-	checkColumnIndex(a2drrm, column)
+	if err := checkColumnIndex(a2drrm, column); err != nil {
+		panic(err)
+	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
 		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
-- 
2.43.0


From 5af6f8c0bf6003fa6e9efe4bda9910a6caa130ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 05/36] fix: appending a vector of another implementation loses
 its entries

---
 array_real_vector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/array_real_vector.go b/array_real_vector.go
index 66811bc..49bf571 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -140,8 +140,8 @@ func NewArrayRealVectorFromTwoRealVector(v1, v2 RealVector) (*ArrayRealVector, e
         data[i] = v1.At(i)
     }
 
-    for i := l1; i < l2; i++ {
-        data[i] = v2.At(i)
+    for i := 0; i < l2; i++ {
+        data[l1+i] = v2.At(i)
     }
 
     return &ArrayRealVector{data: data}, nil
-- 
2.43.0


From 5f787c7adf6c828740617d08459d2b34375d8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:55 +0000
Subject: [PATCH 06/36] fix: SetSubVector copies twice and corrupts overlapping
 storage

---
 array_real_vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 49bf571..06d1068 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -455,6 +455,7 @@ func (arv *ArrayRealVector) SetSubVector(index int, vec RealVector) {
 
     if v, ok := vec.(*ArrayRealVector); ok {
         arv.SetSubVectorWithSlice(index, v.data)
+        return
     }
 
     for i := index; i < index+vec.Dimension(); i++ {
-- 
2.43.0


From 7adec68a3c7a78050385ae75c25f63ebe00a6f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 07/36] fix: Projection overwrites the vector it projects onto

---
 real_vector.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/real_vector.go b/real_vector.go
index 5550008..1a9ae03 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -476,8 +476,9 @@ func Projection(src, dest RealVector) RealVector {
 		panic(mathArithmeticErrorf(zero_norm))
 	}
 
-	dest.MapMultiply(VecDotProduct(src, dest) / VecDotProduct(dest, dest))
-	return dest
+	projection := dest.Copy()
+	projection.MapMultiply(VecDotProduct(src, dest) / norm2)
+	return projection
 }
 
 /**
-- 
2.43.0


From 657bc20770ef2aca80561d4852f627952efb044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 08/36] fix: floating point comparison takes 0.0 and -0.0 to
 differ

---
 utils.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/utils.go b/utils.go
index dc0d844..f20dad6 100644
--- a/utils.go
+++ b/utils.go
@@ -22,14 +22,14 @@ import (
 )
 
 const (
-	sgn_mask_float = 0x80000000
+	sgn_mask_float = uint64(1) << 63
 )
 
 var (
 	positive_zero_float64      float64 = 0.0
-	negative_zero_float64      float64 = -positive_zero_float64
-	positive_zero_float64_bits         = math.Float64bits(positive_zero_float64)
-	negative_zero_float64_bits         = math.Float64bits(negative_zero_float64)
+	negative_zero_float64      float64 = math.Copysign(0, -1)
+	positive_zero_float64_bits         = int64(math.Float64bits(positive_zero_float64))
+	negative_zero_float64_bits         = int64(math.Float64bits(negative_zero_float64))
 )
 
 func _isSymmetric(matrix RealMatrix, relativeTolerance float64, raiseException bool) bool {
@@ -81,16 +81,20 @@ func equalsWithError(x, y, eps float64) bool {
 
 func equalsWithULP(x, y float64, maxUlps int) bool {
 
-	xInt := math.Float64bits(x)
-	yInt := math.Float64bits(y)
+	xInt := int64(math.Float64bits(x))
+	yInt := int64(math.Float64bits(y))
 
 	var isEqual bool
-	if ((xInt ^ yInt) & sgn_mask_float) == 0 {
+	if (uint64(xInt^yInt) & sgn_mask_float) == 0 {
 		// number have same sign, there is no risk of overflow
-		isEqual = uint64(math.Abs(float64(xInt-yInt))) <= uint64(maxUlps)
+		delta := xInt - yInt
+		if delta < 0 {
+			delta = -delta
+		}
+		isEqual = delta <= int64(maxUlps)
 	} else {
 		// number have opposite signs, take care of overflow
-		var deltaPlus, deltaMinus uint64
+		var deltaPlus, deltaMinus int64
 		if xInt < yInt {
 			deltaPlus = yInt - positive_zero_float64_bits
 			deltaMinus = xInt - negative_zero_float64_bits
@@ -99,10 +103,10 @@ func equalsWithULP(x, y float64, maxUlps int) bool {
 			deltaMinus = yInt - negative_zero_float64_bits
 		}
 
-		if deltaPlus > uint64(maxUlps) {
+		if deltaPlus > int64(maxUlps) {
 			isEqual = false
 		} else {
-			isEqual = deltaMinus <= (uint64(maxUlps) - deltaPlus)
+			isEqual = deltaMinus <= (int64(maxUlps) - deltaPlus)
 		}
 
 	}
-- 
2.43.0


From a58ee7953301bbbef1e7d80ecef12e5fb4beb13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 09/36] fix: diagonal matrix accepts out of range off-diagonal
 entries

---
 diagonal_matrix.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 49db089..43ae0d9 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -206,6 +206,9 @@ func (dm *DiagonalMatrix) SetEntry(row, column int, value float64) {
 		}
 		dm.data[row] = value
 	} else {
+		if err := checkMatrixIndex(dm, row, column); err != nil {
+			panic(err)
+		}
 		if err := dm.ensureZero(value); err != nil {
 			panic(err)
 		}
@@ -219,6 +222,9 @@ func (dm *DiagonalMatrix) AddToEntry(row, column int, increment float64) {
 		}
 		dm.data[row] += increment
 	} else {
+		if err := checkMatrixIndex(dm, row, column); err != nil {
+			panic(err)
+		}
 		if err := dm.ensureZero(increment); err != nil {
 			panic(err)
 		}
@@ -234,11 +240,12 @@ func (dm *DiagonalMatrix) ensureZero(value float64) error {
 }
 
 func (dm *DiagonalMatrix) MultiplyEntry(row, column int, factor float64) {
+	if err := checkMatrixIndex(dm, row, column); err != nil {
+		panic(err)
+	}
+
 	// we don't care about non-diagonal elements for multiplication
 	if row == column {
-		if err := checkRowIndex(dm, row); err != nil {
-			panic(err)
-		}
 		dm.data[row] *= factor
 	}
 }
-- 
2.43.0


From 2095b7544427231aba592fe58dc2dc0fc2274c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:05 +0000
Subject: [PATCH 10/36] fix: diagonal matrix ignores invalid index ranges

---
 diagonal_matrix.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 43ae0d9..67aec6e 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -582,10 +582,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 		}
 	}
 
-	checkRowIndex(dm, row)
-	checkColumnIndex(dm, column)
-	checkRowIndex(dm, nRows+row-1)
-	checkColumnIndex(dm, nCols+column-1)
+	if err := checkSubMatrixIndex(dm, row, nRows+row-1, column, nCols+column-1); err != nil {
+		panic(err)
+	}
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
@@ -595,7 +594,9 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 }
 
 func (dm *DiagonalMatrix) SubMatrix(startRow, endRow, startColumn, endColumn int) RealMatrix {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	if (endRow - startRow + 1) != (endColumn - startColumn + 1) {
 		panic(dimensionsMismatchSimpleErrorf((endRow - startRow + 1), (endColumn - startColumn + 1)))
 	}
@@ -683,7 +684,9 @@ func (dm *DiagonalMatrix) WalkInRowOrder(visitor RealMatrixPreservingVisitor) fl
 }
 
 func (dm *DiagonalMatrix) WalkInRowOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -706,7 +709,9 @@ func (dm *DiagonalMatrix) WalkInUpdateRowOrder(visitor RealMatrixChangingVisitor
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateRowOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for i := startRow; i <= endRow; i++ {
 		for j := startColumn; j <= endColumn; j++ {
@@ -741,7 +746,9 @@ func (dm *DiagonalMatrix) WalkInColumnOrder(visitor RealMatrixPreservingVisitor)
 }
 
 func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChangingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
@@ -752,7 +759,9 @@ func (dm *DiagonalMatrix) WalkInUpdateColumnOrderBounded(visitor RealMatrixChang
 }
 
 func (dm *DiagonalMatrix) WalkInColumnOrderBounded(visitor RealMatrixPreservingVisitor, startRow, endRow, startColumn, endColumn int) float64 {
-	checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn)
+	if err := checkSubMatrixIndex(dm, startRow, endRow, startColumn, endColumn); err != nil {
+		panic(err)
+	}
 	visitor.Start(dm.RowDimension(), dm.ColumnDimension(), startRow, endRow, startColumn, endColumn)
 	for j := startColumn; j <= endColumn; j++ {
 		for i := startRow; i <= endRow; i++ {
-- 
2.43.0


From d59e12c66b7d814b1a8f39482724149b8a5ad627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 11/36] fix: diagonal matrix is left half written when a row,
 column or submatrix is rejected

---
 diagonal_matrix.go | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/diagonal_matrix.go b/diagonal_matrix.go
index 67aec6e..b86ad06 100644
--- a/diagonal_matrix.go
+++ b/diagonal_matrix.go
@@ -384,8 +384,11 @@ func (dm *DiagonalMatrix) SetColumnMatrix(column int, matrix RealMatrix) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), nRows, 1))
 	}
 	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, matrix.At(i, 0))
+		if i != column {
+			dm.SetEntry(i, column, matrix.At(i, 0))
+		}
 	}
+	dm.SetEntry(column, column, matrix.At(column, 0))
 }
 
 func (dm *DiagonalMatrix) ColumnVectorAt(column int) RealVector {
@@ -403,8 +406,11 @@ func (dm *DiagonalMatrix) SetColumnVector(column int, vec RealVector) {
 		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 	}
 	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, vec.At(i))
+		if i != column {
+			dm.SetEntry(i, column, vec.At(i))
+		}
 	}
+	dm.SetEntry(column, column, vec.At(column))
 }
 
 func (dm *DiagonalMatrix) Equals(object interface{}) bool {
@@ -518,8 +524,11 @@ func (dm *DiagonalMatrix) SetColumn(column int, array []float64) {
 
 	}
 	for i := 0; i < nRows; i++ {
-		dm.SetEntry(i, column, array[i])
+		if i != column {
+			dm.SetEntry(i, column, array[i])
+		}
 	}
+	dm.SetEntry(column, column, array[column])
 }
 
 func (dm *DiagonalMatrix) SetRow(row int, array []float64) {
@@ -531,8 +540,11 @@ func (dm *DiagonalMatrix) SetRow(row int, array []float64) {
 		panic(matrixDimensionMismatchErrorf(1, len(array), 1, nCols))
 	}
 	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, array[i])
+		if i != row {
+			dm.SetEntry(row, i, array[i])
+		}
 	}
+	dm.SetEntry(row, row, array[row])
 }
 
 func (dm *DiagonalMatrix) SetRowMatrix(row int, matrix RealMatrix) {
@@ -544,8 +556,11 @@ func (dm *DiagonalMatrix) SetRowMatrix(row int, matrix RealMatrix) {
 		panic(matrixDimensionMismatchErrorf(matrix.RowDimension(), matrix.ColumnDimension(), 1, nCols))
 	}
 	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, matrix.At(0, i))
+		if i != row {
+			dm.SetEntry(row, i, matrix.At(0, i))
+		}
 	}
+	dm.SetEntry(row, row, matrix.At(0, row))
 }
 
 func (dm *DiagonalMatrix) SetRowVector(row int, vec RealVector) {
@@ -558,8 +573,11 @@ func (dm *DiagonalMatrix) SetRowVector(row int, vec RealVector) {
 	}
 
 	for i := 0; i < nCols; i++ {
-		dm.SetEntry(row, i, vec.At(i))
+		if i != row {
+			dm.SetEntry(row, i, vec.At(i))
+		}
 	}
+	dm.SetEntry(row, row, vec.At(row))
 }
 
 func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
@@ -588,6 +606,13 @@ func (dm *DiagonalMatrix) SetSubMatrix(subMatrix [][]float64, row, column int) {
 
 	for i := 0; i < nRows; i++ {
 		for j := 0; j < nCols; j++ {
+			if row+i != column+j {
+				dm.SetEntry(row+i, column+j, subMatrix[i][j])
+			}
+		}
+	}
+	for i := 0; i < nRows; i++ {
+		if j := row + i - column; j >= 0 && j < nCols {
 			dm.SetEntry(row+i, column+j, subMatrix[i][j])
 		}
 	}
-- 
2.43.0


From 2a1729ac9800279f968bbcb5623604032418c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:09 +0000
Subject: [PATCH 12/36] fix: SubMatrix ignores an invalid selection

---
 real_matrix.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/real_matrix.go b/real_matrix.go
index 6d83661..8a0f825 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -460,7 +460,9 @@ func (drmcv realMatrixChangingVisitorImpl) End() float64 { return 0 }
  * Gets a submatrix. Rows and columns are indicated counting from 0 to n-1.
  */
 func SubMatrix(m RealMatrix, selectedRows, selectedColumns []int) RealMatrix {
-	checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns)
+	if err := checkSubMatrixIndexFromIndices(m, selectedRows, selectedColumns); err != nil {
+		panic(err)
+	}
 
 	subMatrix, err := NewRealMatrixWithDimension(len(selectedRows), len(selectedColumns))
 	if err != nil {
-- 
2.43.0


From 3357508f610690a43bc893ad341bf67d10677c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:11 +0000
Subject: [PATCH 13/36] fix: copying a submatrix into too small a destination
 fails untyped or half written

---
 real_matrix.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/real_matrix.go b/real_matrix.go
index 8a0f825..135db22 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -402,11 +402,11 @@ func CopySubMatrix(m RealMatrix, startRow, endRow, startColumn, endColumn int, d
 
 	rowsCount := endRow + 1 - startRow
 	columnsCount := endColumn + 1 - startColumn
-	if (len(destination) < rowsCount) || (len(destination[0]) < columnsCount) {
-		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), rowsCount, columnsCount))
+	if len(destination) < rowsCount {
+		panic(matrixDimensionMismatchErrorf(len(destination), 0, rowsCount, columnsCount))
 	}
 
-	for i := 1; i < rowsCount; i++ {
+	for i := 0; i < rowsCount; i++ {
 		if len(destination[i]) < columnsCount {
 			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[i]), rowsCount, columnsCount))
 		}
@@ -428,15 +428,18 @@ func CopySubMatrixFromIndices(m RealMatrix, selectedRows, selectedColumns []int,
 	}
 
 	nCols := len(selectedColumns)
-	if (len(destination) < len(selectedRows)) || (len(destination[0]) < nCols) {
-		panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
+	if len(destination) < len(selectedRows) {
+		panic(matrixDimensionMismatchErrorf(len(destination), 0, len(selectedRows), len(selectedColumns)))
 	}
 
 	for i := 0; i < len(selectedRows); i++ {
-		destinationI := destination[i]
-		if len(destinationI) < nCols {
-			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[0]), len(selectedRows), len(selectedColumns)))
+		if len(destination[i]) < nCols {
+			panic(matrixDimensionMismatchErrorf(len(destination), len(destination[i]), len(selectedRows), len(selectedColumns)))
 		}
+	}
+
+	for i := 0; i < len(selectedRows); i++ {
+		destinationI := destination[i]
 		for j := 0; j < len(selectedColumns); j++ {
 			destinationI[j] = m.At(selectedRows[i], selectedColumns[j])
 		}
-- 
2.43.0


From ad3dee5d375b564e1916bf4d60b525c76db9fb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 14/36] fix: block matrix fails untyped on empty or incomplete
 data

---
 block_real_matrix.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index dc9dd0c..6c55920 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -79,6 +79,10 @@ func NewBlockRealMatrix(rowDimension, columnDimension int) (*BlockRealMatrix, er
 }
 
 func NewBlockRealMatrixFromSlices(rawData [][]float64) (*BlockRealMatrix, error) {
+	if len(rawData) == 0 {
+		return nil, notStrictlyPositiveErrorf(float64(len(rawData)))
+	}
+
 	return NewBlockRealMatrixFromBlockData(len(rawData), len(rawData[0]), toBlocksLayout(rawData))
 }
 
@@ -98,6 +102,10 @@ func NewBlockRealMatrixFromBlockData(rows, columns int, blockData [][]float64) (
 	ans.blockRows = (rows + BLOCK_SIZE - 1) / BLOCK_SIZE
 	ans.blockColumns = (columns + BLOCK_SIZE - 1) / BLOCK_SIZE
 
+	if len(blockData) < ans.blockRows*ans.blockColumns {
+		return nil, dimensionsMismatchSimpleErrorf(len(blockData), ans.blockRows*ans.blockColumns)
+	}
+
 	ans.blocks = blockData
 
 	var index int
@@ -545,6 +553,10 @@ func (brm *BlockRealMatrix) SetSubMatrix(subMatrix [][]float64, row, column int)
 		panic(invalidArgumentSimpleErrorf())
 	}
 
+	if len(subMatrix) == 0 {
+		panic(noDataErrorf(at_least_one_row))
+	}
+
 	refLength := len(subMatrix[0])
 	if refLength == 0 {
 		panic(noDataErrorf(at_least_one_column))
-- 
2.43.0


From f2b8477b9c34bf21f2ed36017de581ea2c61908e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 15/36] fix: matrix factories fail untyped or build a broken
 matrix from empty data

---
 array_2d_row_real_matrix.go |  4 ++++
 real_matrix.go              | 10 +++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index a66c21b..5724280 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -69,6 +69,10 @@ func NewArray2DRowRealMatrixFromSlice(v []float64) (*Array2DRowRealMatrix, error
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
+	if len(v) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+
 	ans := new(Array2DRowRealMatrix)
 	nRows := len(v)
 	ans.data = make([][]float64, nRows)
diff --git a/real_matrix.go b/real_matrix.go
index 135db22..32aae2e 100644
--- a/real_matrix.go
+++ b/real_matrix.go
@@ -333,7 +333,15 @@ func NewRealMatrixWithDimension(rows, columns int) (RealMatrix, error) {
 }
 
 func NewRealMatrixFromSlices(data [][]float64) (RealMatrix, error) {
-	if data == nil || data[0] == nil {
+	if data == nil {
+		return nil, invalidArgumentSimpleErrorf()
+	}
+
+	if len(data) == 0 {
+		return nil, noDataErrorf(at_least_one_row)
+	}
+
+	if data[0] == nil {
 		return nil, invalidArgumentSimpleErrorf()
 	}
 
-- 
2.43.0


From 13c441403b72e268e4b7cf84b278d32d69f35b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 16/36] fix: vector constructors fail untyped on a negative
 size

---
 array_real_vector.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/array_real_vector.go b/array_real_vector.go
index 06d1068..44a08d3 100644
--- a/array_real_vector.go
+++ b/array_real_vector.go
@@ -30,6 +30,10 @@ type ArrayRealVector struct {
  * @param size Size of the vector.
  */
 func NewSizedArrayRealVector(size int) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
+
     return &ArrayRealVector{data: make([]float64, size)}, nil
 }
 
@@ -100,6 +104,10 @@ func NewArrayRealVector(d []float64, copyArray bool) (*ArrayRealVector, error) {
  * @param preset All entries will be set with this value.
  */
 func NewSizedArrayRealVectorWithPreset(size int, preset float64) (*ArrayRealVector, error) {
+    if size < 0 {
+        return nil, notPositiveErrorf(number_of_elements_should_be_positive, float64(size))
+    }
+
     ans := &ArrayRealVector{data: make([]float64, size)}
     for i := 0; i < size; i++ {
         ans.data[i] = preset
-- 
2.43.0


From 5082cc61cdd3f2de9f7ac0d21fcf38a2fe636b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 17/36] fix: vector iterator fails untyped when no entry is
 left

---
 real_vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/real_vector.go b/real_vector.go
index 1a9ae03..46bb598 100644
--- a/real_vector.go
+++ b/real_vector.go
@@ -252,7 +252,7 @@ func (ei *entryIteratorImpl) HasNext() bool {
 
 func (ei *entryIteratorImpl) Next() Entry {
 	if ei.idx >= ei.vec.Dimension() {
-		panic("no entry left")
+		panic(outOfRangeErrorf(index, float64(ei.idx), 0, float64(ei.vec.Dimension())-1))
 	}
 
 	e := &entryImpl{idx: ei.idx, value: ei.vec.At(ei.idx)}
-- 
2.43.0


From 5a5e8ed8483f1c96b134c43d99ed9d958dad6637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:15 +0000
Subject: [PATCH 18/36] fix: singular values below 1e-8 are taken for zero
 whatever the scale of the matrix

---
 singular_value_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 14ce2cb..060a689 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -444,7 +444,7 @@ func NewSingularValueDecomposition(matrix RealMatrix) (ans *SingularValueDecompo
 	}
 
 	// Set the small value tolerance used to calculate rank and pseudo-inverse
-	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(doubleeps))
+	ans.tol = math.Max(float64(m)*ans.singularValues[0]*eps_svd, math.Sqrt(0x1p-1022))
 
 	if !ans.transposed {
 		ans.cachedU, err = NewRealMatrixFromSlices(U)
-- 
2.43.0


From 7a616e5a832325f73b9e3be2fdd2e1db9c2e3abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 19/36] fix: covariance of a matrix with more columns than rows
 is truncated

---
 singular_value_decomposition.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/singular_value_decomposition.go b/singular_value_decomposition.go
index 060a689..5b701c0 100644
--- a/singular_value_decomposition.go
+++ b/singular_value_decomposition.go
@@ -564,9 +564,10 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		panic(numberIsTooLargeErrorf(too_large_cutoff_singular_value, minSingularValue, svd.singularValues[0], true))
 	}
 
+	n := svd.V().RowDimension()
 	data := make([][]float64, dimension)
 	for i := 0; i < dimension; i++ {
-		data[i] = make([]float64, p)
+		data[i] = make([]float64, n)
 	}
 
 	t := struct{ svdPreservingVisitor }{}
@@ -575,7 +576,7 @@ func (svd *SingularValueDecomposition) Covariance(minSingularValue float64) Real
 		data[row][column] = value / svd.singularValues[row]
 	}
 
-	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, p-1)
+	svd.VT().WalkInOptimizedOrderBounded(t, 0, dimension-1, 0, n-1)
 
 	jv, err := NewArray2DRowRealMatrixFromSlices(data, true)
 	if err != nil {
-- 
2.43.0


From a94791d709152da3684a09976f86ab64b2642e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 20/36] fix: determinant ignores the imaginary parts of complex
 eigenvalues

---
 eigen_decomposition.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 48276f6..3629e40 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -260,11 +260,11 @@ func (ed *EigenDecomposition) EigenvectorAt(i int) RealVector {
  * Computes the determinant of the matrix.
  */
 func (ed *EigenDecomposition) Determinant() float64 {
-	determinant := 1.
-	for _, lambda := range ed.realEigenvalues {
-		determinant *= lambda
+	determinant := complex(1, 0)
+	for i, lambda := range ed.realEigenvalues {
+		determinant *= complex(lambda, ed.imagEigenvalues[i])
 	}
-	return determinant
+	return real(determinant)
 }
 
 /**
-- 
2.43.0


From 641cc0e58ce13d3f912027109ed37e2a28e8f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:21 +0000
Subject: [PATCH 21/36] fix: rank revealing QR pseudo-inverse fails for every
 rectangular matrix

---
 rrqr_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 5499d0e..8f41325 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -181,7 +181,7 @@ func (rrqrds *rrqrDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (rrqrds *rrqrDecompositionSolver) Inverse() RealMatrix {
-	m, err := NewRealIdentityMatrix(rrqrds.rrqrd.P().RowDimension())
+	m, err := NewRealIdentityMatrix(len(rrqrds.rrqrd.qrt[0]))
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 4e7729ac4add10e879503fb5b9c24b38ef046d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:24 +0000
Subject: [PATCH 22/36] fix: rank revealing QR gives a zero matrix rank 1

---
 rrqr_decomposition.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rrqr_decomposition.go b/rrqr_decomposition.go
index 8f41325..0e91288 100644
--- a/rrqr_decomposition.go
+++ b/rrqr_decomposition.go
@@ -135,6 +135,9 @@ func (rrqrd *RRQRDecomposition) Rank(dropThreshold float64) int {
 	rank := 1
 	lastNorm := MatFrobeniusNorm(r)
 	rNorm := lastNorm
+	if rNorm == 0 {
+		return 0
+	}
 	for rank < int(math.Min(float64(rows), float64(columns))) {
 		thisNorm := MatFrobeniusNorm(r.SubMatrix(rank, rows-1, rank, columns-1))
 		if thisNorm == 0 || (thisNorm/lastNorm)*rNorm < dropThreshold {
-- 
2.43.0


From c8a0a0b921d244c279b7f944747ac576145d1890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 23/36] fix: Schur transform of a zero matrix does not converge

---
 schur_transformer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index dd0d27e..94b837b 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -221,7 +221,7 @@ func (st *SchurTransformer) findSmallSubDiagonalElement(startIdx int, norm float
 		if s == 0.0 {
 			s = norm
 		}
-		if math.Abs(st.matrixT[l][l-1]) < doubleeps*s {
+		if math.Abs(st.matrixT[l][l-1]) <= doubleeps*s {
 			break
 		}
 		l--
-- 
2.43.0


From 5e34812f97e40294a9a5aaf853bf841a10f6b889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 24/36] fix: Schur transform that does not converge panics
 instead of returning its error

---
 schur_transformer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/schur_transformer.go b/schur_transformer.go
index 94b837b..b2f35c4 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -55,7 +55,9 @@ func NewSchurTransformer(matrix RealMatrix) (*SchurTransformer, error) {
 	ans.matrixP = transformer.P().Data()
 
 	// transform matrix
-	ans.transform()
+	if err := ans.transform(); err != nil {
+		return nil, err
+	}
 	return ans, nil
 }
 
@@ -110,7 +112,7 @@ func (st *SchurTransformer) T() RealMatrix {
 /**
  * Transform original matrix to Schur form.
  */
-func (st *SchurTransformer) transform() {
+func (st *SchurTransformer) transform() error {
 	n := len(st.matrixT)
 
 	// compute matrix norm
@@ -185,7 +187,7 @@ func (st *SchurTransformer) transform() {
 			// stop transformation after too many iterations
 			iteration++
 			if iteration > max_iter_st {
-				panic(maxIterationErrorf(convergence_failed, max_iter_st))
+				return maxIterationErrorf(convergence_failed, max_iter_st)
 			}
 
 			// the initial houseHolder vector for the QR step
@@ -195,6 +197,7 @@ func (st *SchurTransformer) transform() {
 			st.performDoubleQRStep(il, im, iu, shift, hVec)
 		}
 	}
+	return nil
 }
 
 /**
-- 
2.43.0


From 7c6d84cc2ab2f839f52f18d8974bc0423c611b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:30 +0000
Subject: [PATCH 25/36] fix: rectangular Cholesky accepts non square matrices

---
 rectangular_cholesky_decomposition.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index 3b02e29..b245b23 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -32,6 +32,9 @@ func NewRectangularCholeskyDecomposition(matrix RealMatrix) (*RectangularCholesk
 }
 
 func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small float64) (*RectangularCholeskyDecomposition, error) {
+	if !IsSquare(matrix) {
+		return nil, nonSquareMatrixSimpleErrorf(matrix.RowDimension(), matrix.ColumnDimension())
+	}
 	ans := new(RectangularCholeskyDecomposition)
 	order := matrix.RowDimension()
 	c := matrix.Data()
-- 
2.43.0


From 59fa863ff7a13242288d14e3794e0f17849adf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:49 +0000
Subject: [PATCH 26/36] fix: eigen decomposition of a tridiagonal matrix fails
 untyped on wrong sizes

---
 eigen_decomposition.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 3629e40..84a82f4 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -102,6 +102,12 @@ func NewEigenDecomposition(matrix RealMatrix) (*EigenDecomposition, error) {
  * matrix.  The Householder matrix is assumed to be the identity matrix.
  */
 func NewEigenDecompositionFromTridiagonal(main, secondary []float64) (*EigenDecomposition, error) {
+	if len(main) == 0 {
+		return nil, noDataErrorSimpleErrorf()
+	}
+	if len(secondary) != len(main)-1 {
+		return nil, dimensionsMismatchSimpleErrorf(len(secondary), len(main)-1)
+	}
 	ans := new(EigenDecomposition)
 	ans.isSymmetric = true
 	ans.main = append([]float64{}, main...)
-- 
2.43.0


From ec756b45a56ccfa1ef5c0666ea93cd01fb540325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:51 +0000
Subject: [PATCH 27/36] fix: eigen solver gives wrong solutions for non
 symmetric matrices

---
 eigen_decomposition.go | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 84a82f4..45e595e 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -700,7 +700,8 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 }
 
 type eigenDecompositionSolver struct {
-	ed *EigenDecomposition
+	ed   *EigenDecomposition
+	left [][]float64 // rows of the inverse of V, nil if V is singular
 }
 
 /**
@@ -711,7 +712,17 @@ type eigenDecompositionSolver struct {
  * but the DecompositionSolver only supports real eigenvalues.
  */
 func newEigenDecompositionSolver(ed *EigenDecomposition) *eigenDecompositionSolver {
-	return &eigenDecompositionSolver{ed: ed}
+	ans := &eigenDecompositionSolver{ed: ed}
+	if ed.isSymmetric {
+		// V is orthogonal, the rows of its inverse are the eigenvectors
+		ans.left = make([][]float64, len(ed.eigenvectors))
+		for i := range ans.left {
+			ans.left[i] = ed.eigenvectors[i].DataRef()
+		}
+	} else if lu, err := NewLUDecomposition(ed.V()); err == nil && lu.Solver().IsNonSingular() {
+		ans.left = lu.Solver().Inverse().Data()
+	}
+	return ans
 }
 
 func (s *eigenDecompositionSolver) IsNonSingular() bool {
@@ -747,17 +758,20 @@ func (s *eigenDecompositionSolver) SolveVector(b RealVector) RealVector {
 	if b.Dimension() != m {
 		panic(dimensionsMismatchSimpleErrorf(b.Dimension(), m))
 	}
-	if !s.IsNonSingular() {
+	if !s.IsNonSingular() || s.left == nil {
 		panic(singularMatrixSimpleErrorf())
 	}
 
 	bp := make([]float64, m)
 	for i := 0; i < m; i++ {
-		v := s.ed.eigenvectors[i]
-		vData := v.DataRef()
-		s := VecDotProduct(v, b) / s.ed.realEigenvalues[i]
+		vData := s.ed.eigenvectors[i].DataRef()
+		var ss float64
+		for j := 0; j < m; j++ {
+			ss += s.left[i][j] * b.At(j)
+		}
+		ss /= s.ed.realEigenvalues[i]
 		for j := 0; j < m; j++ {
-			bp[j] += s * vData[j]
+			bp[j] += ss * vData[j]
 		}
 	}
 
@@ -771,7 +785,7 @@ func (s *eigenDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 	if b.RowDimension() != m {
 		panic(dimensionsMismatchSimpleErrorf(b.RowDimension(), m))
 	}
-	if !s.IsNonSingular() {
+	if !s.IsNonSingular() || s.left == nil {
 		panic(singularMatrixSimpleErrorf())
 	}
 
@@ -787,11 +801,10 @@ func (s *eigenDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 			bp[i][k] = 0
 		}
 		for i := 0; i < m; i++ {
-			v := s.ed.eigenvectors[i]
-			vData := v.DataRef()
+			vData := s.ed.eigenvectors[i].DataRef()
 			var ss float64
 			for j := 0; j < m; j++ {
-				ss += v.At(j) * tmpCol[j]
+				ss += s.left[i][j] * tmpCol[j]
 			}
 			ss /= s.ed.realEigenvalues[i]
 			for j := 0; j < m; j++ {
@@ -806,7 +819,7 @@ func (s *eigenDecompositionSolver) SolveMatrix(b RealMatrix) RealMatrix {
 }
 
 func (s *eigenDecompositionSolver) Inverse() RealMatrix {
-	if !s.IsNonSingular() {
+	if !s.IsNonSingular() || s.left == nil {
 		panic(singularMatrixSimpleErrorf())
 	}
 
@@ -822,7 +835,7 @@ func (s *eigenDecompositionSolver) Inverse() RealMatrix {
 			invIJ := 0.
 			for k := 0; k < m; k++ {
 				vK := s.ed.eigenvectors[k].DataRef()
-				invIJ += vK[i] * vK[j] / s.ed.realEigenvalues[k]
+				invIJ += vK[i] * s.left[k][j] / s.ed.realEigenvalues[k]
 			}
 			invI[j] = invIJ
 		}
-- 
2.43.0


From 6a655391a7141b578fa3060d9fe96ac37edbf1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:30 +0000
Subject: [PATCH 28/36] fix: real eigenvalues of matrices with large entries
 taken for complex pairs

---
 eigen_decomposition.go | 2 +-
 schur_transformer.go   | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 45e595e..8c66e25 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -510,7 +510,7 @@ func (ed *EigenDecomposition) transformToSchur(matrix RealMatrix) (*SchurTransfo
 	ed.imagEigenvalues = make([]float64, len(matT))
 
 	for i := 0; i < len(ed.realEigenvalues); i++ {
-		if i == (len(ed.realEigenvalues)-1) || equalsWithError(matT[i+1][i], 0.0, eps_ed) {
+		if i == (len(ed.realEigenvalues)-1) || matT[i+1][i] == 0.0 {
 			ed.realEigenvalues[i] = matT[i][i]
 		} else {
 			x := matT[i+1][i+1]
diff --git a/schur_transformer.go b/schur_transformer.go
index b2f35c4..141d3ff 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -128,6 +128,9 @@ func (st *SchurTransformer) transform() error {
 
 		// Look for single small sub-diagonal element
 		il := st.findSmallSubDiagonalElement(iu, norm)
+		if il > 0 {
+			st.matrixT[il][il-1] = 0.0
+		}
 
 		// Check for convergence
 		if il == iu {
@@ -170,6 +173,7 @@ func (st *SchurTransformer) transform() error {
 					st.matrixT[i][iu-1] = q*z + p*st.matrixT[i][iu]
 					st.matrixT[i][iu] = q*st.matrixT[i][iu] - p*z
 				}
+				st.matrixT[iu][iu-1] = 0.0
 
 				// Accumulate transformations
 				for i := 0; i <= n-1; i++ {
-- 
2.43.0


From 1309b47f79cd77eaf10944ae7a5db6179732d8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 29/36] fix: eigen decomposition of matrices with small entries
 loses accuracy and complex pairs

---
 eigen_decomposition.go | 18 +++++++++++-------
 schur_transformer.go   |  2 +-
 utils.go               |  9 ---------
 3 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/eigen_decomposition.go b/eigen_decomposition.go
index 8c66e25..6e7c53e 100644
--- a/eigen_decomposition.go
+++ b/eigen_decomposition.go
@@ -173,9 +173,9 @@ func (ed *EigenDecomposition) D() RealMatrix {
 		}
 
 		for i := 0; i < len(ed.imagEigenvalues); i++ {
-			if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) > 0 {
+			if ed.imagEigenvalues[i] > 0 {
 				ed.cachedD.SetEntry(i, i+1, ed.imagEigenvalues[i])
-			} else if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+			} else if ed.imagEigenvalues[i] < 0 {
 				ed.cachedD.SetEntry(i, i-1, ed.imagEigenvalues[i])
 			}
 		}
@@ -213,11 +213,15 @@ func (ed *EigenDecomposition) VT() RealMatrix {
  * Returns whether the calculated eigen values are complex or real.
  * The method performs a zero check for each element of the
  * ImagEigenvalues() array and returns true if any
- * element is not equal to zero.
+ * element is not equal to zero, relative to the largest eigenvalue.
  */
 func (ed *EigenDecomposition) HasComplexEigenvalues() bool {
+	largest := 0.0
+	for i := 0; i < len(ed.realEigenvalues); i++ {
+		largest = math.Max(largest, math.Hypot(ed.realEigenvalues[i], ed.imagEigenvalues[i]))
+	}
 	for i := 0; i < len(ed.imagEigenvalues); i++ {
-		if !equalsWithError(ed.imagEigenvalues[i], 0.0, eps_ed) {
+		if math.Abs(ed.imagEigenvalues[i]) > eps_ed*largest {
 			return true
 		}
 	}
@@ -544,7 +548,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 	}
 
 	// we can not handle a matrix with zero norm
-	if equalsWithError(norm, 0.0, eps_ed) {
+	if norm == 0.0 {
 		return mathArithmeticErrorf(zero_norm)
 	}
 
@@ -566,7 +570,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				for j := l; j <= idx; j++ {
 					r += matrixT[i][j] * matrixT[j][idx]
 				}
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0 {
 					z = w
 					s = r
 				} else {
@@ -626,7 +630,7 @@ func (ed *EigenDecomposition) findEigenVectorsFromSchur(schur *SchurTransformer)
 				}
 				w := matrixT[i][i] - p
 
-				if compareTo(ed.imagEigenvalues[i], 0.0, eps_ed) < 0 {
+				if ed.imagEigenvalues[i] < 0 {
 					z = w
 					r = ra
 					s = sa
diff --git a/schur_transformer.go b/schur_transformer.go
index 141d3ff..61393f6 100644
--- a/schur_transformer.go
+++ b/schur_transformer.go
@@ -336,7 +336,7 @@ func (st *SchurTransformer) performDoubleQRStep(il, im, iu int, shift *ShiftInfo
 			}
 
 			shift.x = math.Abs(p) + math.Abs(q) + math.Abs(r)
-			if equalsWithError(shift.x, 0.0, doubleeps) {
+			if shift.x == 0.0 {
 				continue
 			}
 			p /= shift.x
diff --git a/utils.go b/utils.go
index f20dad6..59d57b4 100644
--- a/utils.go
+++ b/utils.go
@@ -62,15 +62,6 @@ func isSymmetric(matrix RealMatrix, eps float64) bool {
 	return _isSymmetric(matrix, eps, false)
 }
 
-func compareTo(x, y, eps float64) int {
-	if equalsWithError(x, y, eps) {
-		return 0
-	} else if x < y {
-		return -1
-	}
-	return 1
-}
-
 func equals(x, y float64) bool {
 	return equalsWithULP(x, y, 1)
 }
-- 
2.43.0


From 650a82e12fb42ad6d5040797cd86bcbd2ccadfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:16 +0000
Subject: [PATCH 30/36] fix: copy only the blocks a block matrix uses

---
 block_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/block_real_matrix.go b/block_real_matrix.go
index 6c55920..f9989bf 100644
--- a/block_real_matrix.go
+++ b/block_real_matrix.go
@@ -194,7 +194,7 @@ func (brm *BlockRealMatrix) Copy() RealMatrix {
 	c.blockRows = (brm.rows + BLOCK_SIZE - 1) / BLOCK_SIZE
 	c.blockColumns = (brm.columns + BLOCK_SIZE - 1) / BLOCK_SIZE
 	c.blocks = createBlocksLayout(brm.rows, brm.columns)
-	for i := 0; i < len(brm.blocks); i++ {
+	for i := 0; i < len(c.blocks); i++ {
 		copy(c.blocks[i], brm.blocks[i])
 	}
 
-- 
2.43.0


From 3d3c3eb7e2c2759a1f7ba1552ebf54186a9b370d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 31/36] fix: error messages show the figures of the error
 instead of formatting debris

---
 error.go            | 18 +++++++++---------
 qr_decomposition.go |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/error.go b/error.go
index 760939f..5e179a1 100644
--- a/error.go
+++ b/error.go
@@ -41,18 +41,18 @@ const (
 	dimensions_mismatch                   = "dimensions mismatch"
 	no_data                               = "no data"
 	out_of_range_simple                   = "%v out of [%v, %v] range"
-	index                                 = "index (%v)"
-	number_of_elements_should_be_positive = "number of elements should be positive (%v)"
-	initial_row_after_final_row           = "initial row %v after final row %v"
-	initial_column_after_final_column     = "initial column %v after final column %v"
+	index                                 = "index (%[1]v)"
+	number_of_elements_should_be_positive = "number of elements should be positive (%[1]v)"
+	initial_row_after_final_row           = "initial row %[2]v after final row %[1]v"
+	initial_column_after_final_column     = "initial column %[2]v after final column %[1]v"
 	number_too_small                      = "%v is smaller than the minimum (%v)"
 	number_too_small_bound_excluded       = "%v is smaller than, or equal to, the minimum (%v)"
 	number_too_large                      = "%v is larger than the maximum (%v)"
 	number_too_large_bound_excluded       = "%v is larger than, or equal to, the maximum (%v)"
 	empty_selected_column_index_array     = "empty selected column index array"
 	empty_selected_row_index_array        = "empty selected row index array"
-	row_index                             = "row index (%v)"
-	column_index                          = "column index ((%v)"
+	row_index                             = "row index (%[1]v)"
+	column_index                          = "column index (%[1]v)"
 	illegal_state                         = "illegal state"
 	first_rows_not_initialized_yet        = "first %v rows are not initialized yet"
 	first_columns_not_initialized_yet     = "first %v columns are not initialized yet"
@@ -63,12 +63,12 @@ const (
 	non_symmetric_matrix                  = "non symmetric matrix: the difference between entries at (%v,%v) and (%v,%v) is larger than %v"
 	not_positive_definite_matrix          = "not positive definite matrix"
 	array_element                         = "value %v at index %v"
-	not_positive_exponent                 = "invalid exponent %v (must be positive)"
+	not_positive_exponent                 = "invalid exponent %[1]v (must be positive)"
 	singular_matrix                       = "matrix is singular"
 	unsupported_operation                 = "unsupported operation"
 	convergence_failed                    = "convergence failed"
 	max_count_exceeded                    = "maximal count (%d) exceeded"
-	too_large_cutoff_singular_value       = "cutoff singular value is {0}, should be at most {1}"
+	too_large_cutoff_singular_value       = "cutoff singular value is %v, should be at most %v"
 )
 
 type maxIterationError struct {
@@ -491,7 +491,7 @@ func (e mathIllegalNumberError) Argument() float64 {
 
 func mathIllegalNumberErrorf(pattern string, wrong float64, arguments ...interface{}) mathIllegalNumberError {
 	ret := mathIllegalNumberError{argument: wrong}
-	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, wrong, arguments)
+	ret.mathIllegalArgumentError = mathIllegalArgumentErrorf(pattern, append([]interface{}{wrong}, arguments...)...)
 	return ret
 }
 
diff --git a/qr_decomposition.go b/qr_decomposition.go
index 51a6236..55e8457 100644
--- a/qr_decomposition.go
+++ b/qr_decomposition.go
@@ -296,7 +296,7 @@ func checkSingular(diag []float64, min float64, raise bool) bool {
 		d := diag[i]
 		if math.Abs(d) <= min {
 			if raise {
-				panic(singularMatrixErrorf(singular_matrix+" : "+number_too_small+" : "+index, d, min, i))
+				panic(singularMatrixErrorf(singular_matrix+" : "+number_too_small+" : index (%v)", d, min, i))
 			} else {
 				return true
 			}
-- 
2.43.0


From 489eb5eaf962c8fb0a43803dcf0b3aeb42cf5ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 32/36] fix: an error about a number that is not strictly
 positive excludes the bound zero

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 5e179a1..6a810e8 100644
--- a/error.go
+++ b/error.go
@@ -319,7 +319,7 @@ func (e notStrictlyPositiveError) Status() int {
 
 func notStrictlyPositiveErrorf(number float64) notStrictlyPositiveError {
 	ret := notStrictlyPositiveError{}
-	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, true)
+	ret.numberIsTooSmallError = numberIsTooSmallBoundedErrorf(number, 0, false)
 	return ret
 }
 
-- 
2.43.0


From 63e7b2d07a48489b8a50148181a6d34b224bdc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 33/36] fix: the error about a matrix that is not positive
 definite says so and where

---
 error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 6a810e8..e7c0f66 100644
--- a/error.go
+++ b/error.go
@@ -539,7 +539,7 @@ func (e mathError) Error() string {
 	return e.msg
 }
 
-func (e mathError) addMsg(msg string) {
+func (e *mathError) addMsg(msg string) {
 	e.msg += " : " + msg
 }
 
-- 
2.43.0


From 6ee9985482287e9aed4947db4cfbecfff4f7b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:25 +0000
Subject: [PATCH 34/36] fix: a column vector that does not fit is reported as a
 column

---
 array_2d_row_real_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index 5724280..dc2ecf4 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -804,7 +804,7 @@ func (a2drrm *Array2DRowRealMatrix) SetColumnVector(column int, vec RealVector)
 	}
 	nRows := a2drrm.RowDimension()
 	if vec.Dimension() != nRows {
-		panic(matrixDimensionMismatchErrorf(1, vec.Dimension(), nRows, 1))
+		panic(matrixDimensionMismatchErrorf(vec.Dimension(), 1, nRows, 1))
 
 	}
 	for i := 0; i < nRows; i++ {
-- 
2.43.0


From 489071ac32635a166e48ce514055f66da57ced10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:43 +0000
Subject: [PATCH 35/36] fix: the rectangular Cholesky decomposition reports the
 position of the negative entry it found

---
 rectangular_cholesky_decomposition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rectangular_cholesky_decomposition.go b/rectangular_cholesky_decomposition.go
index b245b23..3d02805 100644
--- a/rectangular_cholesky_decomposition.go
+++ b/rectangular_cholesky_decomposition.go
@@ -80,7 +80,7 @@ func NewRectangularCholeskyDecompositionWithThreshold(matrix RealMatrix, small f
 				if c[index[i]][index[i]] < -small {
 					// there is at least one sufficiently negative diagonal element,
 					// the symmetric positive semidefinite matrix is wrong
-					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], i, small)
+					return nil, nonPositiveDefiniteMatrixErrorf(c[index[i]][index[i]], index[i], small)
 				}
 			}
 
-- 
2.43.0


From d472075e1870826f500413df032d65279e990a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 36/36] fix: a matrix without entries refuses a negative
 position and is left empty by rows of unequal length

---
 array_2d_row_real_matrix.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/array_2d_row_real_matrix.go b/array_2d_row_real_matrix.go
index dc2ecf4..aa87997 100644
--- a/array_2d_row_real_matrix.go
+++ b/array_2d_row_real_matrix.go
@@ -303,18 +303,25 @@ func (a2drrm *Array2DRowRealMatrix) SetSubMatrix(subMatrix [][]float64, row, col
 			panic(mathIllegalStateErrorf(first_columns_not_initialized_yet, column))
 		}
 
-		a2drrm.data = make([][]float64, len(subMatrix))
+		if row < 0 {
+			panic(outOfRangeErrorf(row_index, float64(row), 0, 0))
+		}
 
-		for i := 0; i < nRows; i++ {
-			a2drrm.data[i] = make([]float64, nCols)
+		if column < 0 {
+			panic(outOfRangeErrorf(column_index, float64(column), 0, 0))
 		}
 
-		for i := 0; i < len(a2drrm.data); i++ {
+		for i := 0; i < nRows; i++ {
 			if len(subMatrix[i]) != nCols {
 				panic(dimensionsMismatchSimpleErrorf(len(subMatrix[i]), nCols))
 			}
+		}
+
+		a2drrm.data = make([][]float64, nRows)
 
-			copy(a2drrm.data[i+row][column:column+nCols], subMatrix[i][0:nCols])
+		for i := 0; i < nRows; i++ {
+			a2drrm.data[i] = make([]float64, nCols)
+			copy(a2drrm.data[i], subMatrix[i])
 		}
 	} else {
 
-- 
2.43.0

