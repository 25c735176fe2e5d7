From f315bdaeed3ef9a565ad707de3998e01c2f4a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 01/39] fix: convert *big.Float to *big.Rat exactly instead of
 through 10 digit text

---
 conv/bigrat.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigrat.go b/conv/bigrat.go
index 6a997c8..d338ac0 100755
--- a/conv/bigrat.go
+++ b/conv/bigrat.go
@@ -49,7 +49,8 @@ func BigFloatToBigRat(ival *big.Float, oval **big.Rat) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Rat")
 	}
 
-	*oval, _ = big.NewRat(1, 1).SetString(BigFloatToString(ival))
+	// A finite *big.Float is always an exact ratio
+	*oval, _ = ival.Rat(nil)
 	return nil
 }
 
-- 
2.43.0


From 4310ebd3cf4732e4e8b9fcede7c1a4e9f64b4aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 02/39] fix: do not share the numerator of a *big.Rat with the
 converted *big.Int

---
 conv/bigint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conv/bigint.go b/conv/bigint.go
index 750c6a6..b49fcd2 100755
--- a/conv/bigint.go
+++ b/conv/bigint.go
@@ -81,7 +81,8 @@ func BigRatToBigInt(ival *big.Rat, oval **big.Int) error {
 		return fmt.Errorf(errMsg, ival, ival.String(), "*big.Int")
 	}
 
-	*oval = ival.Num()
+	// Copy, since Num returns a reference to the numerator of the source
+	*oval = big.NewInt(0).Set(ival.Num())
 	return nil
 }
 
-- 
2.43.0


From c897c314b4dda1ac9135c8fae18cc1886c678dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 03/39] fix: generic conversion of big types to float32 reports
 inexact values

---
 conv/conv.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 19b696b..83b8bd9 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -697,21 +697,21 @@ var (
 			if err := BigIntToFloat64(t.(*big.Int), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigIntToFloat32(t.(*big.Int), u.(*float32))
 		},
 		"*big.Floatfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigFloatToFloat64(t.(*big.Float), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigFloatToFloat32(t.(*big.Float), u.(*float32))
 		},
 		"*big.Ratfloat32": func(t any, u any) error {
 			var inter float64
 			if err := BigRatToFloat64(t.(*big.Rat), &inter); err != nil {
 				return err
 			}
-			return FloatToFloat(inter, u.(*float32))
+			return BigRatToFloat32(t.(*big.Rat), u.(*float32))
 		},
 		"stringfloat32": func(t any, u any) error {
 			return StringToFloat32(t.(string), u.(*float32))
-- 
2.43.0


From a8ca5af53ec4042f946a0e77535438e9c4b55a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:12 +0000
Subject: [PATCH 04/39] fix: copy big values instead of sharing their storage
 when source and target types are the same

---
 conv/conv.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conv/conv.go b/conv/conv.go
index 83b8bd9..0c4e5a9 100755
--- a/conv/conv.go
+++ b/conv/conv.go
@@ -1009,6 +1009,19 @@ var (
 	}
 )
 
+// copyBig copies the value of a non-nil big pointer to a non-nil big pointer of the same type.
+// Copying the struct would share the underlying words, so that modifying one value in place could modify the other.
+func copyBig(src, tgt any) {
+	switch s := src.(type) {
+	case *big.Int:
+		tgt.(*big.Int).Set(s)
+	case *big.Float:
+		tgt.(*big.Float).Copy(s)
+	case *big.Rat:
+		tgt.(*big.Rat).Set(s)
+	}
+}
+
 // To converts any Numeric type or string to any Numeric type or string
 // If the types are the same, a copy by value is performed, unless they are big types.
 // For big type copies, a new pointer is constructed with a copy of the input value.
@@ -1045,7 +1058,7 @@ func To[I, O constraint.Numeric | string](i I, o *O) error {
 
 				// ival is non-nil, oval is non-nil and not the same pointer as ival
 				// Copy the value
-				oval.Elem().Elem().Set(ival.Elem())
+				copyBig(ival.Interface(), oval.Elem().Interface())
 			}
 		} else {
 			// All non-big types are value types, just copy the value
@@ -1140,7 +1153,7 @@ func ToBigOps[I constraint.Numeric | string, O constraint.BigOps[O]](i I, o *O)
 
 			// ival is non-nil, oval is non-nil and not the same pointer as ival
 			// Copy the value
-			oval.Elem().Elem().Set(ival.Elem())
+			copyBig(ival.Interface(), oval.Elem().Interface())
 		}
 
 		return nil
-- 
2.43.0


From 43ac008b1e67b0a881680a879d305d4d74a1caf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 05/39] fix: do not panic on nil keys or values of interface
 type when iterating a map

---
 iter/gen.go      | 5 ++++-
 stream/stream.go | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index cfa4862..417a9cd 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -67,7 +67,10 @@ func MapIterGen[K comparable, V any](m map[K]V) func() (tuple.Two[K, V], error)
 			return zv, EOI
 		}
 
-		return tuple.Of2(mi.Key().Interface().(K), mi.Value().Interface().(V)), nil
+		// Type assertions fail for a nil key or value of an interface type, where the zero value is the nil value wanted
+		key, _ := mi.Key().Interface().(K)
+		val, _ := mi.Value().Interface().(V)
+		return tuple.Of2(key, val), nil
 	}
 }
 
diff --git a/stream/stream.go b/stream/stream.go
index 149dc06..91a0f5b 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -589,9 +589,11 @@ func ExpandMaps[K comparable, V any](it iter.Iter[map[K]V]) iter.Iter[tuple.Two[
 			}
 		}
 
-		val := tuple.Of2(mr.Key().Interface().(K), mr.Value().Interface().(V))
+		// Type assertions fail for a nil key or value of an interface type, where the zero value is the nil value wanted
+		key, _ := mr.Key().Interface().(K)
+		val, _ := mr.Value().Interface().(V)
 
-		return val, nil
+		return tuple.Of2(key, val), nil
 	})
 }
 
-- 
2.43.0


From 27c18a6025f314f5fb205a712d093e0d78471669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 06/39] fix: AbsBigOps must not modify the values of the source

---
 stream/stream.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stream/stream.go b/stream/stream.go
index 91a0f5b..ebd18b8 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -5,6 +5,7 @@ package stream
 import (
 	"fmt"
 	gomath "math"
+	"math/big"
 	"math/bits"
 	"reflect"
 	"sync"
@@ -903,7 +904,11 @@ func Abs[T constraint.SignedInteger](it iter.Iter[T]) iter.Iter[T] {
 // AbsBigOps is the *big.Int, *big.Float, *big.Rat specialization of Abs
 func AbsBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 	return Map(func(v T) T {
-		return v.Abs(v)
+		// Place result in a new value, the source value may still be in use. A new *big.Float has no precision, so that the
+		// result has the precision of the source value.
+		var abs T
+		conv.ToBigOps(new(big.Float), &abs)
+		return abs.Abs(v)
 	})(it)
 }
 
-- 
2.43.0


From b50583466c685172fe0ebb56f40b8a9c7ea788cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 07/39] fix: sum and average of *big.Float values must not be
 rounded to the precision of the constant 0

---
 stream/stream.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/stream/stream.go b/stream/stream.go
index ebd18b8..f093274 100755
--- a/stream/stream.go
+++ b/stream/stream.go
@@ -1008,30 +1008,30 @@ func AvgBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
 		func() (T, error) {
 			var (
 				sum   T
-				count T
-				one   T
+				count int
+				div   T
 				val   T
 				avg   T
 				zv    T
 				err   error
 			)
-			conv.ToBigOps(0, &sum)
-			conv.ToBigOps(0, &count)
-			conv.ToBigOps(1, &one)
+			// A new *big.Float has no precision, so that the sum of *big.Float has the precision of the first value
+			conv.ToBigOps(new(big.Float), &sum)
 
 			for {
 				if val, err = it.Next(); err == nil {
 					// Sum all values and count them
 					sum.Add(sum, val)
-					count.Add(count, one)
+					count++
 				} else if err == iter.EOI {
-					if count.Sign() == 0 {
+					if count == 0 {
 						// Empty result
 						return zv, err
 					}
 
 					// Non-empty result - divisor = zero handled above, so Div will never fail
-					math.DivBigOps(sum, count, &avg)
+					conv.ToBigOps(count, &div)
+					math.DivBigOps(sum, div, &avg)
 					break
 				} else {
 					return zv, err
@@ -1092,8 +1092,9 @@ func Sum[T constraint.IntegerAndFloat](it iter.Iter[T]) iter.Iter[T] {
 
 // SumBigOps is the *big.Int, *big.Float, *big.Rat specialization of Sum
 func SumBigOps[T constraint.BigOps[T]](it iter.Iter[T]) iter.Iter[T] {
+	// A new *big.Float has no precision, so that the sum of *big.Float has at least the precision of the first two values
 	var sum T
-	conv.ToBigOps(0, &sum)
+	conv.ToBigOps(new(big.Float), &sum)
 
 	return Reduce(
 		func(a, b T) T {
-- 
2.43.0


From cd673047c592e6ecb17db33475573eea5f824dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:37 +0000
Subject: [PATCH 08/39] fix: reader iterator must not lose a byte returned with
 EOF, return bytes not read, or forget its error

---
 iter/gen.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 417a9cd..45ed4e6 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -192,12 +192,13 @@ func ReaderIterGen(src goio.Reader) func() (byte, error) {
 			return 0, err
 		}
 
-		if _, err := src.Read(buf); err != nil {
+		// A reader may return (0, nil) or (1, EOF), ReadFull handles both
+		if _, err = goio.ReadFull(src, buf); err != nil {
 			done = true
 			if err = funcs.Ternary(err == goio.EOF, EOI, err); err == EOI {
 				if closer, isa := src.(goio.Closer); isa {
 					if cerr := closer.Close(); cerr != nil {
-						return 0, cerr
+						err = cerr
 					}
 				}
 			}
-- 
2.43.0


From 09993a55e0a49bfe28b58c3bc6866209e943cca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:40 +0000
Subject: [PATCH 09/39] fix: rune iterator must accept short reads, reject
 overlong encodings and surrogates, and repeat its error

---
 iter/gen.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/iter/gen.go b/iter/gen.go
index 45ed4e6..1f57708 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -236,12 +236,12 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 	// See https://en.wikipedia.org/wiki/UTF-8 for further details
 
 	var (
-		done  = src == nil
-		err   = EOI
-		n, eb int
-		buf   = make([]byte, 3)
-		b     byte
-		r     rune
+		done = src == nil
+		err  = EOI
+		eb   int
+		buf  = make([]byte, 3)
+		b    byte
+		r    rune
 	)
 
 	return func() (rune, error) {
@@ -251,12 +251,12 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 
 		// Read up to next 4 bytes from reader, depending on bit pattern of first byte
 		eb = 0
-		if n, err = src.Read(buf[0:1]); (n == 0) || (err != nil) {
+		// A reader may return (0, nil) or (1, EOF), ReadFull handles both
+		if _, err = goio.ReadFull(src, buf[0:1]); err != nil {
 			done = true
 
-			// Should be a non-nil error if 0 bytes were returned, but don't assume
 			// Translate EOF to EOI
-			if ((n == 0) && (err == nil)) || (err == goio.EOF) {
+			if err == goio.EOF {
 				err = EOI
 			}
 
@@ -288,9 +288,10 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		}
 
 		// Multiple bytes
-		if n, err = src.Read(buf[0:eb]); (n != eb) || (err != nil) {
+		if _, err = goio.ReadFull(src, buf[0:eb]); err != nil {
 			// Not enough extra bytes exist or some other error
-			if (err == nil) || (err == goio.EOF) {
+			done = true
+			if (err == goio.ErrUnexpectedEOF) || (err == goio.EOF) {
 				err = InvalidUTF8EncodingError
 			}
 
@@ -302,6 +303,7 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 		for i := 0; i < eb; i++ {
 			if buf[i]&0b11_000000 != 0b10_000000 {
 				// Invalid extra byte
+				done = true
 				err = InvalidUTF8EncodingError
 				return 0, err
 			}
@@ -323,12 +325,13 @@ func ReaderAsRunesIterGen(src goio.Reader) func() (rune, error) {
 				(rune(buf[0]&0b00_111111) << (6 + 6)) |
 				(rune(buf[1]&0b00_111111) << 6) |
 				(rune(buf[2] & 0b00_111111))
+		}
 
-			// Cannot exceed maximum value
-			if r > utf8.MaxRune {
-				err = InvalidUTF8EncodingError
-				return 0, err
-			}
+		// Cannot exceed maximum value, be a surrogate, or use more bytes than needed
+		if utf8.RuneLen(r) != eb+1 {
+			done = true
+			err = InvalidUTF8EncodingError
+			return 0, err
 		}
 
 		// Valid multiple bytes
-- 
2.43.0


From 041526c3fec69ce1011765a3a3e43f66379f2259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 10/39] fix: a line feed that does not directly follow a
 carriage return ends a line

---
 iter/gen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/iter/gen.go b/iter/gen.go
index 1f57708..5daa933 100755
--- a/iter/gen.go
+++ b/iter/gen.go
@@ -395,6 +395,8 @@ func readLines(it func() (rune, error)) func() (string, error) {
 				return str.String(), nil
 			}
 
+			// A line feed only continues the line ending if it directly follows the carriage return
+			lastCR = false
 			str.WriteRune(codePoint)
 		}
 	}
-- 
2.43.0


From 045f8227c842678ab61fd73bf4a2f892e2b1f485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 11/39] fix: OfResultError must not panic on a nil value of
 interface type

---
 union/union.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/union/union.go b/union/union.go
index 8b40b5d..11dadd6 100755
--- a/union/union.go
+++ b/union/union.go
@@ -177,7 +177,8 @@ func OfError[R any](err error) Result[R] {
 func OfResultError[R any](r R, err error) Result[R] {
 	if err != nil {
 		// R is not comparable
-		if !goreflect.ValueOf(r).IsZero() {
+		// Use the address of r, the reflect.Value of a nil interface is invalid
+		if !goreflect.ValueOf(&r).Elem().IsZero() {
 			panic(fmt.Errorf("A Result cannot have both a non-zero R value and a non-nil error"))
 		}
 	}
-- 
2.43.0


From ea44f3ca5b3745d8cd6175afaff0bc89d9692a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 12/39] fix: OrderedTuple2SliceAdd keeps keys ordered when the
 new key is the smallest

---
 funcs/funcs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index da07f9f..d91e9c1 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -683,6 +683,11 @@ func OrderedTuple2SliceAdd[K constraint.Ordered, V any](mp *[]tuple.Two[K, []V],
 		(*mp)[index] = tuple.Of2(key, append((*mp)[index].U, value))
 
 	default:
+		// if the key is smaller than every existing key, the new tuple has to be inserted before index 0
+		if key < (*mp)[index].T {
+			index--
+		}
+
 		// index of tuple that a new tuple should be inserted after
 		// due to pointer used for original slice, we have to start building from an empty slice
 		*mp = append(append(append([]tuple.Two[K, []V]{}, (*mp)[:index+1]...), tuple.Of2(key, []V{value})), (*mp)[index+1:]...)
-- 
2.43.0


From 209bf220738d16880e3f4f604d61b16e7327b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 13/39] fix: SnakeToCamelCase returns an empty result for an
 empty input instead of panicking

---
 funcs/funcs.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/funcs/funcs.go b/funcs/funcs.go
index d91e9c1..eafae51 100755
--- a/funcs/funcs.go
+++ b/funcs/funcs.go
@@ -1372,6 +1372,11 @@ func TryTo(tryFn func(), panicFn func(any), closers ...func()) {
 func SnakeToCamelCase(snake string) string {
 	var sb strings.Builder
 	for _, word := range strings.Split(snake, "_") {
+		// an empty input has one empty word, as does a leading, trailing, or repeated underscore
+		if word == "" {
+			continue
+		}
+
 		sb.WriteString(strings.ToUpper(string(word[0])))
 		sb.WriteString(string(word[1:]))
 	}
-- 
2.43.0


From ee81afa8b5ee62badb79a5dc2cc354dd07c24e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 14/39] fix: SubInt reports over/underflow when subtracting the
 smallest value of a type

---
 math/math.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/math/math.go b/math/math.go
index ecb808b..f403f07 100755
--- a/math/math.go
+++ b/math/math.go
@@ -453,10 +453,23 @@ func CmpComplex[T constraint.Complex](val1, val2 T) (res int) {
 // SubInt subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if over/underflow occurs.
 // See AddInt.
 func SubInt[T constraint.SignedInteger](me T, sed *T) error {
-	// Instead of actually subtracting, just add the additive inverse
-	*sed = -*sed
+	sign1, sign2 := me >= 0, *sed >= 0
+	*sed = me - *sed
+	newSign := *sed >= 0
+
+	// Cannot add the additive inverse, as the smallest value of a signed type has none
+	if (sign1 != sign2) && (sign1 != newSign) {
+		// Opposite signs subtracted, sign of result differs from minuend
+		if sign1 {
+			// Positive wrapped around to negative
+			return OverflowErr
+		}
 
-	return AddInt(me, sed)
+		// Negative wrapped around to positive
+		return UnderflowErr
+	}
+
+	return nil
 }
 
 // SubUint subtracts two integers as sed = me - sed, overwriting the second value, and returns an error if underflow occurs.
-- 
2.43.0


From aeaf52a48f45f2dcb5dfe37984073461ef2d9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 15/39] fix: Div rounds away from zero when the quotient
 truncates to zero or is one of the operands

---
 math/math.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/math/math.go b/math/math.go
index f403f07..a727625 100755
--- a/math/math.go
+++ b/math/math.go
@@ -29,7 +29,8 @@ func divSInt(de, dv int64, q *int64) {
 
 	// If divisor is odd and r >= half divisor, or divisor is even and r > half divisor, adjust quotient by one to round
 	if (((dv & 1) == 0) && (r >= halfdv)) || (((dv & 1) == 1) && (r > halfdv)) {
-		if *q >= 0 {
+		// The quotient may be zero, so the sign has to be determined from the operands
+		if (de >= 0) == (dv >= 0) {
 			*q++
 		} else {
 			*q--
@@ -314,9 +315,9 @@ var (
 				return DivByZeroErr
 			}
 
-			r := big.NewInt(0)
-			qbi.QuoRem(debi, dvbi, r)
-			r.Abs(r)
+			// Determine the sign from the operands, as the quotient may be zero.
+			// Examine the operands before dividing, as the quotient may be the same pointer as one of them.
+			positive := debi.Sign() == dvbi.Sign()
 
 			halfdv := big.NewInt(0).SetBytes(dvbi.Bytes())
 			halfdv.Abs(halfdv)
@@ -324,8 +325,13 @@ var (
 
 			dvbiEven := big.NewInt(0).SetBytes(dvbi.Bytes())
 			dvbiEven.And(dvbiEven, big.NewInt(1))
+
+			r := big.NewInt(0)
+			qbi.QuoRem(debi, dvbi, r)
+			r.Abs(r)
+
 			if ((dvbiEven.Sign() == 0) && (r.Cmp(halfdv) >= 0)) || ((dvbiEven.Sign() == 1) && (r.Cmp(halfdv) > 0)) {
-				if qbi.Sign() >= 0 {
+				if positive {
 					qbi.Add(qbi, big.NewInt(1))
 				} else {
 					qbi.Sub(qbi, big.NewInt(1))
-- 
2.43.0


From ae4031f4b12b20e8e785a035868df9b20a6b5813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 16/39] fix: Div reports an overflow when dividing the smallest
 value of a signed type by -1

---
 math/math.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/math/math.go b/math/math.go
index a727625..8b3caf6 100755
--- a/math/math.go
+++ b/math/math.go
@@ -159,6 +159,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int) == math.MinInt) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int)
 			qi64 := int64(*qi)
@@ -173,6 +176,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int8) == math.MinInt8) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int8)
 			qi64 := int64(*qi)
@@ -187,6 +193,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int16) == math.MinInt16) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int16)
 			qi64 := int64(*qi)
@@ -201,6 +210,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int32) == math.MinInt32) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int32)
 			qi64 := int64(*qi)
@@ -215,6 +227,9 @@ var (
 			if dvi == 0 {
 				return DivByZeroErr
 			}
+			if (dvi == -1) && (de.(int64) == math.MinInt64) {
+				return OverflowErr
+			}
 
 			qi := any(q).(*int64)
 			divSInt(de.(int64), dvi, qi)
@@ -519,6 +534,8 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // Floats are not used since 32 and 64 bit integer values can have a magnitude too large to be expressed accurately
 // in a float.
 //
+// An error is returned if an integer is divided by zero, or if the smallest value of a signed type is divided by -1.
+//
 // Integer Examples:
 // 18 / 4 = 4 remainder 2. Since divisor 4 is even and remainder 2 is     >= (4 / 2 = 2), increment quotient to 5 (round 4.5 up).
 // 17 / 5 = 3 remainder 2. Since divisor 5 is odd  and remainder 2 is not >  (5 / 2 = 2), leave quotient as is (round 3.4 down).
-- 
2.43.0


From 224ab2a10764f97abce9225ced4f0d601496e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 17/39] fix: Abs and Div accept subtypes of the primitive types

---
 math/math.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/math/math.go b/math/math.go
index 8b3caf6..6d31c06 100755
--- a/math/math.go
+++ b/math/math.go
@@ -7,11 +7,12 @@ import (
 	"math"
 	"math/big"
 	"math/cmplx"
-	"reflect"
+	goreflect "reflect"
 	"strings"
 
 	"github.com/bantling/micro/constraint"
 	"github.com/bantling/micro/conv"
+	"github.com/bantling/micro/reflect"
 )
 
 // Signed integer division, for toDiv map above
@@ -398,14 +399,16 @@ var (
 // In this special case, an error is returned, otherwise nil is returned.
 // Note that while the constraint allows unsigned ints for completeness, no operation is performed.
 func Abs[T constraint.Numeric](val *T) error {
-	typval := reflect.TypeOf(val).Elem().String()
+	// If the type is a subtype, convert it to the base type, so we can find an abs function
+	bval := reflect.ValueToBaseType(goreflect.ValueOf(val))
+	typval := bval.Type().Elem().String()
 
 	// No need to calculate absolute value of an unsigned int
 	if strings.HasPrefix(typval, "uint") {
 		return nil
 	}
 
-	return toAbs[typval](val)
+	return toAbs[typval](bval.Interface())
 }
 
 // AddInt adds two signed integers overwriting the second value, and returns an error if over/underflow occurs.
@@ -540,15 +543,20 @@ func Mul[T constraint.Integer](mp T, ma *T) error {
 // 18 / 4 = 4 remainder 2. Since divisor 4 is even and remainder 2 is     >= (4 / 2 = 2), increment quotient to 5 (round 4.5 up).
 // 17 / 5 = 3 remainder 2. Since divisor 5 is odd  and remainder 2 is not >  (5 / 2 = 2), leave quotient as is (round 3.4 down).
 func Div[T constraint.Numeric](dividend T, divisor T, quotient *T) error {
-	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
-	return toDiv[typ](ade, adv, aq)
+	// If the type is a subtype, convert it to the base type, so we can find a div function
+	var (
+		de = reflect.ValueToBaseType(goreflect.ValueOf(dividend))
+		dv = reflect.ValueToBaseType(goreflect.ValueOf(divisor))
+		q  = reflect.ValueToBaseType(goreflect.ValueOf(quotient))
+	)
+
+	return toDiv[de.Type().String()](de.Interface(), dv.Interface(), q.Interface())
 }
 
 // DivBigOps is the BigOps version of Div
 func DivBigOps[T constraint.BigOps[T]](dividend T, divisor T, quotient *T) error {
 	// Cast args to any for functions to accept
-	var typ, ade, adv, aq = reflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
+	var typ, ade, adv, aq = goreflect.TypeOf(dividend).String(), any(dividend), any(divisor), any(quotient)
 	return toDiv[typ](ade, adv, aq)
 }
 
-- 
2.43.0


From 5d750de5bd62be176c6e91b11834b779f5355895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 18/39] fix: OfRange panics if the initial value is not in the
 range

---
 math/range.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/math/range.go b/math/range.go
index 6b8eee4..64c2ea4 100755
--- a/math/range.go
+++ b/math/range.go
@@ -53,7 +53,10 @@ func OfRange[T constraint.IntegerAndFloat](
 		panic(fmt.Errorf(errMinMaxMsg, minStr, maxStr))
 	}
 
-	return Range[T]{min, minMode, max, maxMode, initial}
+	r := Range[T]{min: min, minMode: minMode, max: max, maxMode: maxMode}
+	funcs.Must(r.SetValue(initial))
+
+	return r
 }
 
 // GetMin returns the minimum value and mode
-- 
2.43.0


From 49e97593614384c5fefddae6b987d5035f5a03c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 19/39] fix: DivIntQuoRem rejects divisors larger than the
 largest int64

---
 math/decimal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index c6c1b16..50c0f60 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -751,7 +751,7 @@ func (d Decimal) DivIntQuoRem(o uint) (Decimal, Decimal, error) {
 	for i := uint(0); i < d.scale; i++ {
 		intPartOfD /= 10
 	}
-	if int64(o) > intPartOfD {
+	if uint64(o) > uint64(intPartOfD) {
 		return Decimal{}, Decimal{}, fmt.Errorf(errDecimalDivisorTooLargeMsg, d, o)
 	}
 
-- 
2.43.0


From 0d3b510def9d048e2cbbfde57e2afc34240c95a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 20/39] fix: DivIntAdd returns values that add up for
 normalized and negative decimals

---
 math/decimal.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index 50c0f60..681c528 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -774,20 +774,25 @@ func (d Decimal) MustDivIntQuoRem(o uint) (Decimal, Decimal) {
 // EG, 100.00 / 3 = [33.34, 33.33, 33.33].
 // This method just calls DivIntQuoRem and spreads the remainder across the first remainder values returned.
 func (d Decimal) DivIntAdd(o uint) ([]Decimal, error) {
-	// Get the quotient and remainder, returning (nil, error) if an error is returned
-	q, r, e := d.DivIntQuoRem(o)
+	// Get the quotient, returning (nil, error) if an error is returned
+	q, _, e := d.DivIntQuoRem(o)
 	if e != nil {
 		return nil, e
 	}
 
-	// Remainder is just a count of how many values need to be increased by 1
+	// Remainder is just a count of how many values need their magnitude increased by 1.
+	// The remainder returned by DivIntQuoRem may be normalized to a smaller scale, so the count is calculated here.
 	var (
-		rc  = r.value
-		res = make([]Decimal, o)
+		rc   = d.value - q.value*int64(o)
+		step = int64(d.Sign())
+		res  = make([]Decimal, o)
 	)
-	for i := int64(0); i < int64(o); i++ {
-		res[i] = Decimal{scale: d.scale, value: q.value + int64(funcs.Ternary(rc > 0, 1, 0)), denormalized: d.denormalized}
-		rc--
+	for i := range res {
+		res[i] = Decimal{scale: d.scale, value: q.value, denormalized: d.denormalized}
+		if rc != 0 {
+			res[i].value += step
+			rc -= step
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From 9d159992333af7b6e262f5d9ec5fe9be8d8cc481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 21/39] fix: AdjustDecimalScale rounds decimals with fewer
 digits than are rounded off instead of panicking

---
 math/decimal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/math/decimal.go b/math/decimal.go
index 681c528..176b853 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -310,6 +310,12 @@ func AdjustDecimalScale(d1, d2 *Decimal) error {
 			return fmt.Errorf(errValueTooSmallToRoundMsg, d2.String())
 		}
 
+		// Ensure there is at least one integer digit to keep, if d1 has fewer digits than the digits to round off
+		if len1 <= scaleDiff {
+			str1 = strings.Repeat("0", scaleDiff+1-len1) + str1
+			len1 = len(str1)
+		}
+
 		// Round by manipulating digits directly in string as a []byte
 		dig1 := []byte(str1)
 
-- 
2.43.0


From 58d9272f41bed509603a15aee87038d0bf772b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 22/39] fix: Decimal.Mul adjusts the scale when rounding a 19
 digit result

---
 math/decimal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/math/decimal.go b/math/decimal.go
index 176b853..3f88032 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -701,6 +701,7 @@ func (d Decimal) Mul(o Decimal) (Decimal, error) {
         // Round one digit
         rmdr := rval % 10
         rval /= 10
+        rscale--
         if rmdr >= 5 {
             rval++
 
-- 
2.43.0


From c887581f219317493d3d774384bec4436d1e9e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 23/39] fix: Decimal.Div returns an error when dividing by zero
 instead of panicking

---
 math/decimal.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/math/decimal.go b/math/decimal.go
index 3f88032..e3ce12f 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -940,6 +940,11 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 		oval = -oval
 	}
 
+	// If o is 0, return division by zero error
+	if oval == 0 {
+		return Decimal{}, fmt.Errorf(errDecimalDivisionByZeroMsg, d)
+	}
+
 	// Start with plain old division
 	q := dval / oval
 	r := dval % oval
-- 
2.43.0


From ce83df489a80eecde24f759e2477a5f96a47f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 24/39] fix: Decimal.Div limits the scale of the result to 18,
 and rounds by the next digit

---
 math/decimal.go | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index e3ce12f..e4abd6e 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -973,27 +973,12 @@ main_loop:
 			nq, nr, ns := q*10, r*10, s+1
 			// fmt.Printf("nq = %d, nr = %d, ns = %d\n", nq, nr, ns)
 
-			// If quotient exceeds max value, fall back on previous quotient, as most accurate result we can get
-			if nq > decimalMaxValue {
+			// If quotient exceeds max value or scale, fall back on previous quotient, as most accurate result we can get
+			if (nq > decimalMaxValue) || (ns > decimalMaxScale) {
 				// fmt.Println("ran out of digits")
 
-				// Get next generated digit, so we know if we should round up the existing quotient
-				// Remainder may be < oval, multiply by 10 until it isn't
-				for nr < oval {
-					nr *= 10
-				}
-				nr /= oval
-				// fmt.Printf("next digit remainder = %d\n", nr)
-
-				// New remainder may be > 10
-				// If so, divide by 10 until remainder < 10, to get most significant digit of it
-				for nr > 10 {
-					nr /= 10
-				}
-				// fmt.Printf("next digit = %d\n", nr)
-
-				// Is next digit >= 5?
-				if nr >= 5 {
+				// Round up the existing quotient if the remainder is at least half the divisor
+				if r >= oval-r {
 					// fmt.Printf("Rounding up")
 					q++
 				}
-- 
2.43.0


From 1ec6cb0f90869bdc981326702e49359a5751e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:03 +0000
Subject: [PATCH 25/39] fix: StringToDecimal rejects strings that contain
 anything but a decimal

---
 math/decimal.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index e4abd6e..81de78e 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
     "math/big"
 	"regexp"
-	"slices"
 	"strconv"
 	"strings"
 
@@ -16,7 +15,7 @@ import (
 
 var (
 	// optional minus sign, zero or more digits, optional dot and zero or more digits.
-	decimalRegex = regexp.MustCompile("(-?)([0-9]*)[.]?([0-9]*)")
+	decimalRegex = regexp.MustCompile("^(-?)([0-9]*)[.]?([0-9]*)$")
 
 	// Powers of 10 constants from 10^0 thru 10^18 (scale can be 0 - 18)
 	powersOf10 = []int64{
@@ -166,9 +165,9 @@ func StringToDecimal(value string) (d Decimal, err error) {
 	parts := decimalRegex.FindStringSubmatch(value)
 
 	// Error if string doesn't match regex
-	// Error if total number of digits > 18
+	// Error if total number of digits = 0 or > 18
 	// indexes : 1 = optional leading minus sign, 2 = optional integer digits, 3 = optional decimal digits
-	if (parts == nil) || slices.Equal(parts, []string{"", "", "", ""}) || ((len(parts[2]) + len(parts[3])) > 18) {
+	if (parts == nil) || ((len(parts[2]) + len(parts[3])) == 0) || ((len(parts[2]) + len(parts[3])) > 18) {
 		err = fmt.Errorf(errInvalidStringMsg, value)
 		return
 	}
-- 
2.43.0


From 645a0970a8dd243abb9a0236dabc5cf46817031f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:38 +0000
Subject: [PATCH 26/39] fix: StringToDecimal does not count leading integer
 zeros as significant digits

---
 math/decimal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/decimal.go b/math/decimal.go
index 81de78e..ec2af27 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -167,7 +167,8 @@ func StringToDecimal(value string) (d Decimal, err error) {
 	// Error if string doesn't match regex
 	// Error if total number of digits = 0 or > 18
 	// indexes : 1 = optional leading minus sign, 2 = optional integer digits, 3 = optional decimal digits
-	if (parts == nil) || ((len(parts[2]) + len(parts[3])) == 0) || ((len(parts[2]) + len(parts[3])) > 18) {
+	// leading integer zeros are not significant
+	if (parts == nil) || ((len(parts[2]) + len(parts[3])) == 0) || ((len(strings.TrimLeft(parts[2], "0")) + len(parts[3])) > 18) {
 		err = fmt.Errorf(errInvalidStringMsg, value)
 		return
 	}
-- 
2.43.0


From 719b54b767cc034aee4f924a215287a6856a5d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:12 +0000
Subject: [PATCH 27/39] fix: Decimal.Mul rounds 128 bit products by the first
 digit rounded off

---
 math/decimal.go | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index ec2af27..fa39aa8 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -600,9 +600,9 @@ func (d Decimal) MustSub(o Decimal) Decimal {
 //	- Given max int64 value starts with 92, divide by 10 and add 1 cannot go back up 19 digits.
 //
 // Otherwise If r / d != o, it is a 64-bit overflow, use BigInt to multiply the two numbers, and get the base 10 string.
-// The resulting scale rs is d scale + o scale, and we need to round (length - 18) times:
+// The resulting scale rs is d scale + o scale, and we need to round off (length - 18) digits:
 //  - Check that resulting scale >= length - 18. If not, the integer portion is too large, it is an overflow.
-//  - Otherwise, round length - 18 times to bring the result down to max of 18 digits.
+//  - Otherwise, round off length - 18 digits to bring the result down to max of 18 digits.
 //
 // If the result is 0, return 0 scale 0, else return r scale rs.
 func (d Decimal) Mul(o Decimal) (Decimal, error) {
@@ -663,27 +663,20 @@ func (d Decimal) Mul(o Decimal) (Decimal, error) {
                 return Decimal{}, fmt.Errorf(funcs.Ternary(d.Sign() == o.Sign(), errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "*", o)
             }
 
-            // While the total length > 18, round off decimal digits until it isn't
+            // If the total length > 18, round off decimal digits until it isn't, by just examining the first one
             // This may round to an integer, or may still have some decimals
-            var digit, carry byte
-            for ; len(base10) > 18; base10 = base10[:len(base10) - 1] {
-                digit = base10[len(base10) - 1] - '0' + carry
-                carry = 0
-                if digit >= 5 {
-                    carry = 1
-                }
-                rscale--
+            var carry bool
+            if extra := len(base10) - 18; extra > 0 {
+                carry = base10[18] >= '5'
+                base10 = base10[:18]
+                rscale -= uint(extra)
             }
 
-            // Get final digit
-            digit = base10[len(base10) - 1] - '0'
-
             // Convert byte slice back to a 64 bit int (cannot fail, as it is <= 18 digits in length)
             rval, _ = strconv.ParseInt(string(base10), 10, 64)
 
-            // Add 1 if the final carry is 1 and final digit >= 5
             // Let the binary add ripple the carry as needed
-            if (carry == 1) && (digit >= 5) {
+            if carry {
                 rval++
 
                 // It is possible we just added 1 to an 18 digit value that became a 19 digit value
-- 
2.43.0


From d9faaf00245a728eca881b4aab2f7707c44304e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 28/39] fix: Decimal.Div does not wrap around when the digits
 of the quotient or remainder exceed 64 bits

---
 math/decimal.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/math/decimal.go b/math/decimal.go
index fa39aa8..d504c66 100755
--- a/math/decimal.go
+++ b/math/decimal.go
@@ -945,17 +945,19 @@ func (d Decimal) Div(o Decimal) (Decimal, error) {
 	// Scale is dividend - divisor, could be negative
 	s := int(d.scale - o.scale)
 
-	// If scale is negative, multiply q,r by 10^(-scale), set scale = 0
-	// If the multiplications go beyond the limit of digits, we have to error out
+	// If scale is negative, generate -scale digits of the quotient, set scale = 0
+	// If the digits go beyond the limit of digits, we have to error out
 	for s < 0 {
-		q *= 10
-		r *= 10
-		s += 1
-
-		if q > decimalMaxValue {
+		if q > decimalMaxValue/10 {
 			// Return over/underflow
 			return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 		}
+
+		// r < oval has at most 18 digits, so r * 10 may only fit an unsigned value
+		r10 := uint64(r) * 10
+		q = q*10 + int64(r10/uint64(oval))
+		r = int64(r10 % uint64(oval))
+		s += 1
 	}
 
 	// If r != 0, perform successive multiply/divides until r = 0
@@ -963,11 +965,9 @@ main_loop:
 	for r != 0 {
 		// Multiply q,r by 10 until r >= o
 		for r < oval {
-			nq, nr, ns := q*10, r*10, s+1
-			// fmt.Printf("nq = %d, nr = %d, ns = %d\n", nq, nr, ns)
-
 			// If quotient exceeds max value or scale, fall back on previous quotient, as most accurate result we can get
-			if (nq > decimalMaxValue) || (ns > decimalMaxScale) {
+			// Compare before multiplying, as 10 times the quotient or remainder may not fit 64 bits
+			if (q > decimalMaxValue/10) || (s+1 > decimalMaxScale) {
 				// fmt.Println("ran out of digits")
 
 				// Round up the existing quotient if the remainder is at least half the divisor
@@ -980,15 +980,15 @@ main_loop:
 			}
 
 			// If remainder exceeds max value, over/underflow occurs
-			if nr > decimalMaxValue {
+			if r > decimalMaxValue/10 {
 				// fmt.Println("exceeded max")
 				return Decimal{}, fmt.Errorf(funcs.Ternary(dpos == opos, errDecimalOverflowMsg, errDecimalUnderflowMsg), d, "/", o)
 			}
 
-			// Copy new quotient, remainder, scale into current
-			q = nq
-			r = nr
-			s = ns
+			// Set new quotient, remainder, scale
+			q *= 10
+			r *= 10
+			s++
 		}
 
 		// Add r / oval to q, set r to r mod oval
-- 
2.43.0


From a6bd92a5559be4fedcac32c9db7a524b1132b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 29/39] fix: JSON object and array elements have to be values

---
 encoding/json/parse/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 53aea2d..35267b9 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -134,6 +134,10 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			// A problem
 			return zv, err // Case 10
 		}
+		if value.Type() == json.Invalid {
+			// The token cannot begin a value
+			return zv, fmt.Errorf(errObjectKeyRequiresValueMsg, key.value)
+		}
 		object[key.value] = value
 
 		// Expect a comma or closing brace
@@ -202,6 +206,10 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 4
 			}
+			if value.Type() == json.Invalid {
+				// The token cannot begin a value
+				return zv, errArrayRequiresValueOrBracket
+			}
 
 			// Return first value
 			first = false
@@ -233,6 +241,10 @@ func parseArray(it iter.Iter[token]) iter.Iter[json.Value] {
 				// A problem - cannot be EOI
 				return zv, err // Case 9
 			}
+			if value.Type() == json.Invalid {
+				// The token cannot begin a value
+				return zv, errArrayRequiresValue
+			}
 
 			return value, nil
 		}
-- 
2.43.0


From 6d904b764d79b020b4275edf2725120722b4a5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 30/39] fix: A JSON object cannot have a comma after the last
 key/value pair

---
 encoding/json/parse/parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 35267b9..6d794e6 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -15,6 +15,7 @@ import (
 // Error constants
 var (
 	errObjectRequiresKeyOrBrace              = fmt.Errorf("A JSON object must have a string key or closing brace after the opening brace")
+	errObjectRequiresKey                     = fmt.Errorf("A JSON object must have a string key after a comma")
 	errObjectDuplicateKeyMsg                 = "A JSON object cannot have duplicate key %q"
 	errObjectKeyRequiresColonMsg             = "The JSON object key %q just be followed by a colon"
 	errObjectKeyRequiresValueMsg             = "The JSON object key %q must be have a value that is an object, arrray, string, number, boolean, or null"
@@ -92,8 +93,11 @@ func parseObject(it iter.Iter[token]) (json.Value, error) {
 			return zv, err // Case 2
 		}
 
-		// If closing brace, valid empty object
+		// If closing brace, valid empty object, unless it is after the comma of an earlier key/value pair
 		if key.typ == tCBrace {
+			if len(object) > 0 {
+				return zv, errObjectRequiresKey
+			}
 			return json.MapToValue(object)
 		}
 
-- 
2.43.0


From 44b21562e771d51f96a58b94bc4d84e3e0a0f5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 31/39] fix: Parse does not accept content after the JSON
 document

---
 encoding/json/parse/parse.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/encoding/json/parse/parse.go b/encoding/json/parse/parse.go
index 6d794e6..b63df9e 100755
--- a/encoding/json/parse/parse.go
+++ b/encoding/json/parse/parse.go
@@ -24,6 +24,7 @@ var (
 	errArrayRequiresValueOrBracket           = fmt.Errorf("A JSON array must have an element or closing bracket after the opening bracket")
 	errArrayRequiresCommaOrBracket           = fmt.Errorf("A JSON array element must be followed by a comma or closing bracket")
 	errEmptyDocument                         = fmt.Errorf("A JSON document cannot be empty")
+	errTrailingContent                       = fmt.Errorf("A JSON document cannot be followed by anything other than whitespace")
 	errObjectOrArrayRequired                 = fmt.Errorf("A JSON document must begin with a brace or bracket")
 )
 
@@ -340,6 +341,14 @@ func Parse(src io.Reader) (json.Value, error) {
 			return zv, err // Case 3
 		}
 
+		// There cannot be anything after the document
+		if _, err = it.Next(); err == nil {
+			return zv, errTrailingContent
+		} else if err != iter.EOI {
+			// A problem
+			return zv, err
+		}
+
 		return doc, nil
 	}
 
-- 
2.43.0


From 772d252d8b99701c28fbe8bc908ee8f7a3b260a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 32/39] fix: The escape \u0022 does not end a JSON string

---
 encoding/json/parse/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index 143bd8b..b8f1c54 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -199,7 +199,9 @@ func lexString(it iter.Iter[rune]) (token, error) {
                     hexVal = hexValCombined
 				}
 
-				val = hexVal
+				// Add the char here, an escaped double quote is not the end of the string
+				str = append(str, hexVal)
+				continue
 			default:
 				return zv, fmt.Errorf(errIllegalStringEscapeMsg, string('\\')+string(val))
 			}
-- 
2.43.0


From bc10fdeb21c7bbe59c002bdbb381906b5e5a644b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 33/39] fix: A negative JSON number cannot have leading zeros

---
 encoding/json/parse/lex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/json/parse/lex.go b/encoding/json/parse/lex.go
index b8f1c54..9cb06c7 100755
--- a/encoding/json/parse/lex.go
+++ b/encoding/json/parse/lex.go
@@ -262,11 +262,13 @@ func lexNumber(it iter.Iter[rune]) (token, error) {
 		}
 
 		if (val >= '0') && (val <= '9') {
-			haveDigit = true
 			str = append(str, val)
 			if leadingZero {
 				return die()
 			}
+			// The first digit may be after a -
+			leadingZero = !haveDigit && val == '0'
+			haveDigit = true
 		} else if val == '.' {
 			str = append(str, val)
 			if haveDigit {
-- 
2.43.0


From aae3adfdf240de9e0a4d5a4259fd4220d762189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 34/39] fix: A JSON number has to match the whole of the number
 syntax, floats included

---
 encoding/json/value.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 4ea1cf4..59443de 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -15,7 +15,7 @@ import (
 )
 
 // NumberString regex
-var numberStringRegex = regexp.MustCompile("-?[0-9]+([.][0-9]+)?(e[0-9]+)?")
+var numberStringRegex = regexp.MustCompile("^-?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?$")
 
 // Error constants
 var (
@@ -227,8 +227,9 @@ func numberToValue(val any) (nval Value, err error) {
 			return
 		}
 
-		// A NumberString could be the empty string, or "foo" or some other value that is not a number
-		if ns, isa := val.(NumberString); isa && (!numberStringRegex.MatchString(string(ns))) {
+		// A NumberString could be the empty string, or "foo" or some other value that is not a number,
+		// and a float could be NaN or an infinity
+		if !numberStringRegex.MatchString(str) {
 			err = errNotNumber
 			return
 		}
-- 
2.43.0


From d8f181a3553ab3239b0fbd1ef8c43be11ff53034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 35/39] fix: ToValue converts map[string]Value and []Value

---
 encoding/json/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 59443de..0d8c70f 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -86,6 +86,9 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+	} else if mp, isa := val.(map[string]Value); isa {
+		res, err = MapToValue(mp)
+
 		// Array
 	} else if arr, isa := val.([]any); isa {
 		// recursive call
@@ -93,6 +96,9 @@ func toValue(val any) (res Value, err error) {
 			return
 		}
 
+	} else if arr, isa := val.([]Value); isa {
+		res, err = SliceToValue(arr)
+
 		// Boolean
 	} else if bln, isa := val.(bool); isa {
 		res = BoolToValue(bln)
-- 
2.43.0


From 3dab9d3e91711d94d3c4737a7327118337a1df86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 36/39] fix: Conversion to a JSON Value returns an error for
 other string types

---
 encoding/json/value.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/encoding/json/value.go b/encoding/json/value.go
index 0d8c70f..05748b1 100755
--- a/encoding/json/value.go
+++ b/encoding/json/value.go
@@ -115,8 +115,10 @@ func toValue(val any) (res Value, err error) {
 		if typ.Kind() == goreflect.String {
 			if typ.AssignableTo(goreflect.TypeOf(NumberString(""))) {
 				res, err = numberToValue(val.(NumberString))
+			} else if str, isa := val.(string); isa {
+				res = StringToValue(str)
 			} else {
-				res = StringToValue(val.(string))
+				err = fmt.Errorf(errInvalidGoValueMsg, val)
 			}
 
 			return
-- 
2.43.0


From e7f95a410feb0511abf622a19d431a5d212ce6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:10 +0000
Subject: [PATCH 37/39] fix: JSON strings and keys are escaped when written

---
 encoding/json/write/write.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/encoding/json/write/write.go b/encoding/json/write/write.go
index da80e08..7e91944 100755
--- a/encoding/json/write/write.go
+++ b/encoding/json/write/write.go
@@ -3,11 +3,31 @@ package write
 // SPDX-License-Identifier: Apache-2.0
 
 import (
+	"fmt"
+
 	"github.com/bantling/micro/encoding/json"
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/io/writer"
 )
 
+// quoted appends a string as a JSON string, escaping the characters that cannot occur in one
+func quoted(data []rune, s string) []rune {
+	data = append(data, '"')
+
+	for _, r := range s {
+		switch {
+		case (r == '"') || (r == '\\'):
+			data = append(data, '\\', r)
+		case r < ' ':
+			data = append(data, []rune(fmt.Sprintf("\\u%04x", r))...)
+		default:
+			data = append(data, r)
+		}
+	}
+
+	return append(data, '"')
+}
+
 // Write writes any value to a writer
 func Write(jv json.Value, dst writer.Writer[rune]) error {
 	switch jv.Type() {
@@ -16,7 +36,7 @@ func Write(jv json.Value, dst writer.Writer[rune]) error {
 	case json.Array:
 		return WriteArray(jv, dst)
 	case json.String:
-		return dst.Write(append(append([]rune{'"'}, []rune(jv.AsString())...), '"')...)
+		return dst.Write(quoted(nil, jv.AsString())...)
 	case json.Number:
 		fallthrough
 	case json.Boolean:
@@ -46,7 +66,7 @@ func WriteObject(jv json.Value, dst writer.Writer[rune]) error {
 		}
 		i++
 
-		data = append(append(append(data, '"'), []rune(k)...), '"', ':')
+		data = append(quoted(data, k), ':')
 		if err := dst.Write(data...); err != nil {
 			return err
 		}
-- 
2.43.0


From 97d8ee4ddf32d244b82270823b36f214ddfc350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:26 +0000
Subject: [PATCH 38/39] fix: ErrorReader.Read does not read past the remaining
 bytes

---
 io/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/io/io.go b/io/io.go
index 029948b..04f35f2 100755
--- a/io/io.go
+++ b/io/io.go
@@ -40,7 +40,7 @@ func (r *ErrorReader) Read(p []byte) (int, error) {
 	}
 
 	// Return the number of bytes asked for, or what we have remaining, whichever is less
-	numBytes := math.MinOrdered(len(r.input), len(p))
+	numBytes := math.MinOrdered(len(r.input)-r.pos, len(p))
 
 	copy(p[:numBytes], r.input[r.pos:r.pos+numBytes])
 	r.pos += numBytes
-- 
2.43.0


From 33419efec27bce0725ee90cf32516a989d4000e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:06 +0000
Subject: [PATCH 39/39] fix: Handlers can be added to a ServeMux while requests
 are being served

---
 rest/rest.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rest/rest.go b/rest/rest.go
index 060d1c2..278a026 100755
--- a/rest/rest.go
+++ b/rest/rest.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"net/http"
 	"regexp"
+	"sync"
 
 	"github.com/bantling/micro/funcs"
 	"github.com/bantling/micro/tuple"
@@ -46,6 +47,8 @@ type ServeMux struct {
 	// [](method, regexp, handler)
 	// A flat structure is used to disambiguate a 404 not found error from a 405 method not allowed error
 	handlers []tuple.Three[string, *regexp.Regexp, Handler]
+	// mutex guards handlers, as handlers can be added while requests are being served
+	mutex sync.RWMutex
 }
 
 // Handle maps the given method and regex string to the given handler.
@@ -74,6 +77,8 @@ func (sm *ServeMux) Handle(method, pattern string, handler Handler) error {
 	}
 
 	// Add method, pattern, and handler triple
+	sm.mutex.Lock()
+	defer sm.mutex.Unlock()
 	funcs.SliceAdd(&sm.handlers, tuple.Of3(method, regex, handler))
 
 	return nil
@@ -85,14 +90,19 @@ func (sm *ServeMux) MustHandle(method, pattern string, handler Handler) {
 }
 
 // ServeHTTP is http.Handler interface method
-func (sm ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+func (sm *ServeMux) ServeHTTP(w http.ResponseWriter, r *http.Request) {
 	// Get the method and url
 	method, url := r.Method, r.URL.Path
 
+	// Handlers are only ever appended, the ones that exist now do not change
+	sm.mutex.RLock()
+	handlers := sm.handlers
+	sm.mutex.RUnlock()
+
 	// Iterate the method, regexp, and handler triples to find the first method match and regexp url matches, if any
 	var urlMatched bool
 
-	for _, methodPatternHandler := range sm.handlers {
+	for _, methodPatternHandler := range handlers {
 		mMethod, mPattern, mHandler := methodPatternHandler.Values()
 		parts := mPattern.FindStringSubmatch(url)
 
-- 
2.43.0

