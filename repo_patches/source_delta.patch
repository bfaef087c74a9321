From 2ae98dcf42725125976dd748221e09bf32e4ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:41 +0000
Subject: [PATCH 01/52] fix: reject public keys that are not points of the
 curve in verify and encrypt

---
 ecdsa.go   |  4 ++++
 sm2_std.go |  4 ++++
 utils.go   | 10 ++++++++++
 3 files changed, 18 insertions(+)

diff --git a/ecdsa.go b/ecdsa.go
index 6f5ef48..29bcc1d 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -251,6 +251,10 @@ func encrypt(pubkey []byte, plain []byte, name string) ([]byte, error) {
 	pubk.X = new(big.Int).SetBytes(pubkey[:32])
 	pubk.Y = new(big.Int).SetBytes(pubkey[32:])
 
+	if !isOnCurve(sm2_std, pubk.X, pubk.Y) {
+		return nil, ErrPublicKeyIllegal
+	}
+
 	return sm2_std_encrypt(pubk, plain)
 }
 
diff --git a/sm2_std.go b/sm2_std.go
index 8e719cf..eb363ac 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1104,6 +1104,10 @@ func sm2_std_sign(priv *ecdsa.PrivateKey, hash, uid []byte) (r, s *big.Int, v by
 
 func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool {
 
+	if !isOnCurve(pub.Curve, pub.X, pub.Y) {
+		return false
+	}
+
 	var e *big.Int
 	if uid == nil {
 		if hash == nil || len(hash) != 32 {
diff --git a/utils.go b/utils.go
index a28b04e..d1fc0ed 100644
--- a/utils.go
+++ b/utils.go
@@ -182,11 +182,21 @@ const (
 	aesIV = "IV for ECDSA CTR"
 )
 
+// isOnCurve reports whether (x, y) is a point of the curve other than the
+// point at infinity, given by coordinates reduced modulo the field prime.
+func isOnCurve(c elliptic.Curve, x, y *big.Int) bool {
+	p := c.Params().P
+	return x.Cmp(p) < 0 && y.Cmp(p) < 0 && c.IsOnCurve(x, y)
+}
+
 func verifyesdsa(pub *ecdsa.PublicKey, hash []byte, r, s *big.Int) bool {
 	// See [NSA] 3.4.2
 	c := pub.Curve
 	N := c.Params().N
 
+	if !isOnCurve(c, pub.X, pub.Y) {
+		return false
+	}
 	if r.Sign() <= 0 || s.Sign() <= 0 {
 		return false
 	}
-- 
2.43.0


From b779a96fc05423c41624ea86ee34a0b1202ccc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 02/52] fix: report failure when SM2 encryption or decryption
 fails

---
 eccset.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/eccset.go b/eccset.go
index ea7ea3e..cf67a74 100644
--- a/eccset.go
+++ b/eccset.go
@@ -219,6 +219,10 @@ func Encryption(pubkey []byte, plain []byte, typeChoose uint32) (cipher []byte,
 		break
 	}
 
+	if err != nil {
+		return nil, FAILURE
+	}
+
 	ret = SUCCESS
 	return
 }
@@ -246,6 +250,10 @@ func Decryption(prikey []byte, cipher []byte, typeChoose uint32) (plain []byte,
 		break
 	}
 
+	if err != nil {
+		return nil, FAILURE
+	}
+
 	ret = SUCCESS
 	return
 }
-- 
2.43.0


From cf3016846d716f6b2be4eb60c2338aa3c9576236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 03/52] fix: validate SM2 ciphertexts and the private key
 before decrypting

---
 ecdsa.go   | 2 +-
 sm2_std.go | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ecdsa.go b/ecdsa.go
index 29bcc1d..d4d9b0a 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -279,7 +279,7 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	priv.D = privateKeyBig
 	sm2Curve = sm2_std
 
-	if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+	if privateKeyBig.Sign() == 0 || privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
diff --git a/sm2_std.go b/sm2_std.go
index eb363ac..600ab5e 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1232,11 +1232,18 @@ func sm2_std_encrypt(pub *ecdsa.PublicKey, data []byte) ([]byte, error) {
 }
 
 func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
+	// 0x04 || C1 (64 bytes) || C3 (32 bytes) || C2 (at least 1 byte)
+	if len(data) <= 97 || data[0] != 0x04 {
+		return nil, ErrMessageIllegal
+	}
 	data = data[1:]
 	length := len(data) - 96
 	curve := priv.Curve
 	x := new(big.Int).SetBytes(data[:32])
 	y := new(big.Int).SetBytes(data[32:64])
+	if !isOnCurve(curve, x, y) {
+		return nil, ErrMessageIllegal
+	}
 	x2, y2 := curve.ScalarMult(x, y, priv.D.Bytes())
 
 	x2Buf := make([]byte, 32)
@@ -1260,7 +1267,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, y2Buf...)
 	h := sm3.Sm3Sum(tm)
 	if bytes.Compare(h, data[64:96]) != 0 {
-		return c, errors.New("Decrypt: failed to decrypt")
+		return nil, errors.New("Decrypt: failed to decrypt")
 	}
 	return c, nil
 }
-- 
2.43.0


From 45770b64980da571a2aa88880cb4cac5af53223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 04/52] fix: point addition mistakes a sum with a zero x
 coordinate for infinity

---
 ecdsa.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index d4d9b0a..5406962 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -384,7 +384,7 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 		return nil, false
 	}
 
-	if x_big.Cmp(big.NewInt(0)) == 0 && x_big.Cmp(big.NewInt(0)) == 0 {
+	if x_big.Cmp(big.NewInt(0)) == 0 && y_big.Cmp(big.NewInt(0)) == 0 {
 		return nil, true
 	}
 
-- 
2.43.0


From 5a61a11d772a5543e188d8c3adc9f3fa160fc34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:19 +0000
Subject: [PATCH 05/52] fix: SM2 addition of a point to itself

---
 sm2_std.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2_std.go b/sm2_std.go
index 600ab5e..2d7e396 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -472,7 +472,8 @@ func sm2_stdPointAdd(x1, y1, z1, x2, y2, z2, x3, y3, z3 *sm2_stdFieldElement) {
 
 	if sm2_stdToBig(&u1).Cmp(sm2_stdToBig(&u2)) == 0 &&
 		sm2_stdToBig(&s1).Cmp(sm2_stdToBig(&s2)) == 0 {
-		sm2_stdPointDouble(x1, y1, z1, x1, y1, z1)
+		sm2_stdPointDouble(x3, y3, z3, x1, y1, z1)
+		return
 	}
 
 	sm2_stdSub(&h, &u2, &u1)
-- 
2.43.0


From 854006bc89663672a0ea13ba081b27e1dfbd1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 06/52] fix: reject compressed points whose x is not on the
 curve

---
 secp256k1.go | 4 +++-
 secp256r1.go | 4 +++-
 sm2_std.go   | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index b8a0149..5892807 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -259,7 +259,9 @@ func secp256k1_decompress(in []byte) ([]byte, error) {
 	x3b.Mul(&x3b, x)
 	x3b.Add(&x3b, c.B)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("X is not the coordinate of a point of the curve")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/secp256r1.go b/secp256r1.go
index c3aba71..3b6c12a 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -56,7 +56,9 @@ func secp256r1_decompress(in []byte) ([]byte, error) {
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("X is not the coordinate of a point of the curve")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
diff --git a/sm2_std.go b/sm2_std.go
index 2d7e396..d252d33 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1639,7 +1639,9 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 	x3b.Add(&x3b, c.B)
 	x3b.Add(&x3b, &xa)
 	x3b.Mod(&x3b, c.P)
-	y.ModSqrt(&x3b, c.P)
+	if x.Cmp(c.P) >= 0 || y.ModSqrt(&x3b, c.P) == nil {
+		return nil, errors.New("X is not the coordinate of a point of the curve")
+	}
 
 	if y.Bit(0) != ybit {
 		y.Sub(c.P, &y)
-- 
2.43.0


From 6a9ae11ac4f007ccd7d16ffb12498793842edbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:32 +0000
Subject: [PATCH 07/52] fix: reject operands that are not points of the curve
 in point arithmetic

---
 eccset.go | 36 ++++++++++++++++++++++++------------
 ecdsa.go  | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/eccset.go b/eccset.go
index cf67a74..2f65e18 100644
--- a/eccset.go
+++ b/eccset.go
@@ -439,16 +439,24 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(point1) == 33 {
-			point1 = PointDecompress(point1, typeChoose)[1:]
-		} else if len(point1) == 65 {
+			point1 = PointDecompress(point1, typeChoose)
+			if point1 == nil {
+				return nil, FAILURE
+			}
+			point1 = point1[1:]
+		} else if len(point1) == 65 && point1[0] == 0x04 {
 			point1 = point1[1:]
 		} else if len(point1) != 64 {
 			return nil, FAILURE
 		}
 
 		if len(point2) == 33 {
-			point2 = PointDecompress(point2, typeChoose)[1:]
-		} else if len(point2) == 65 {
+			point2 = PointDecompress(point2, typeChoose)
+			if point2 == nil {
+				return nil, FAILURE
+			}
+			point2 = point2[1:]
+		} else if len(point2) == 65 && point2[0] == 0x04 {
 			point2 = point2[1:]
 		} else if len(point2) != 64 {
 			return nil, FAILURE
@@ -457,21 +465,21 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Add(point1, point2, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Add(point1, point2, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Add(point1, point2, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
@@ -503,8 +511,12 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 		}
 	} else {
 		if len(pointin) == 33 {
-			pointin = PointDecompress(pointin, typeChoose)[1:]
-		} else if len(pointin) == 65 {
+			pointin = PointDecompress(pointin, typeChoose)
+			if pointin == nil {
+				return nil, FAILURE
+			}
+			pointin = pointin[1:]
+		} else if len(pointin) == 65 && pointin[0] == 0x04 {
 			pointin = pointin[1:]
 		} else if len(pointin) != 64 {
 			return nil, FAILURE
@@ -517,21 +529,21 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	switch typeChoose {
 	case ECC_CURVE_SECP256K1:
 		point, is_infinity := Mul(pointin, scalar, "secp256k1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SECP256R1:
 		point, is_infinity := Mul(pointin, scalar, "secp256r1")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
 		break
 	case ECC_CURVE_SM2_STANDARD:
 		point, is_infinity := Mul(pointin, scalar, "sm2_std")
-		if is_infinity {
+		if is_infinity || point == nil {
 			return nil, FAILURE
 		}
 		return point, SUCCESS
diff --git a/ecdsa.go b/ecdsa.go
index 5406962..f350121 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -290,7 +290,34 @@ func decrypt(prikey, cipher []byte, name string) ([]byte, error) {
 	return sm2_std_decrypt(priv, cipher)
 }
 
+// isPointOrZero reports whether the 64 bytes hold a point of the curve, or the
+// all-zero encoding of the point at infinity.
+func isPointOrZero(point []byte, name string) bool {
+	if len(point) != 64 {
+		return false
+	}
+
+	x := new(big.Int).SetBytes(point[:32])
+	y := new(big.Int).SetBytes(point[32:])
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return true
+	}
+
+	switch name {
+	case "secp256k1":
+		return isOnCurve(secp256k1, x, y)
+	case "secp256r1":
+		return isOnCurve(secp256r1, x, y)
+	case "sm2_std":
+		return isOnCurve(sm2_std, x, y)
+	}
+	return false
+}
+
 func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isPointOrZero(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
@@ -357,6 +384,10 @@ func MulBaseG_Add(pointin, scalar []byte, name string) (point []byte, isinfinity
 }
 
 func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
+	if !isPointOrZero(point1, name) || !isPointOrZero(point2, name) {
+		return nil, false
+	}
+
 	var curve *curveParam
 	var k1curve *secp256k1Curve
 	var sm2Curve *sm2_stdCurve
@@ -403,6 +434,9 @@ func Add(point1, point2 []byte, name string) (point []byte, isinfinity bool) {
 }
 
 func Mul(pointin, scalar []byte, name string) (point []byte, isinfinity bool) {
+	if !isPointOrZero(pointin, name) {
+		return nil, false
+	}
 
 	var curve *curveParam
 	var k1curve *secp256k1Curve
-- 
2.43.0


From 52c0f300e2fb4c865eedfd53e8805bffe736a915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 08/52] fix: secp256k1 and secp256r1 public key recovery on
 exceptional inputs

---
 secp256k1.go | 17 ++++++++++++++++-
 secp256r1.go | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/secp256k1.go b/secp256k1.go
index 5892807..7da5786 100644
--- a/secp256k1.go
+++ b/secp256k1.go
@@ -296,7 +296,11 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 
 	curve := secp256k1
 
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	r := new(big.Int).SetBytes(sig[:32])
+	if r.Sign() == 0 || r.Cmp(curve.N) >= 0 {
+		return nil, errors.New("invalid signature")
+	}
+	r_inv := new(big.Int).ModInverse(r, curve.N)
 
 	G.Curve = curve
 	G.X = curve.Gx
@@ -325,6 +329,10 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256K1)
 
+		if buf1 == nil {
+			return nil, errors.New("failed to decompress")
+		}
+
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
 		R.Y = new(big.Int).SetBytes(buf1[33:])
@@ -338,8 +346,15 @@ func secp256k1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y = point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
+		if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+			if s.Sign() == 0 {
+				continue // not the R that the last byte of sig selects
+			}
+			break
+		}
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
 		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
diff --git a/secp256r1.go b/secp256r1.go
index 3b6c12a..7ca3d42 100644
--- a/secp256r1.go
+++ b/secp256r1.go
@@ -93,7 +93,11 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 
 	curve := secp256r1
 
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
+	r := new(big.Int).SetBytes(sig[:32])
+	if r.Sign() == 0 || r.Cmp(curve.N) >= 0 {
+		return nil, errors.New("invalid signature")
+	}
+	r_inv := new(big.Int).ModInverse(r, curve.N)
 	G.Curve = curve
 	G.X = curve.Gx
 	G.Y = curve.Gy
@@ -121,6 +125,10 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 
 		buf1 := PointDecompress(buf2, ECC_CURVE_SECP256R1)
 
+		if buf1 == nil {
+			return nil, errors.New("failed to decompress")
+		}
+
 		R.Curve = curve
 		R.X = new(big.Int).SetBytes(buf1[1:33])
 		R.Y = new(big.Int).SetBytes(buf1[33:])
@@ -132,8 +140,15 @@ func secp256r1_recover_public(sig, msg []byte) ([]byte, error) {
 		point2.Curve = curve
 		point2.X, point2.Y = curve.ScalarBaseMult(hash)
 		point2.Y = point2.Y.Sub(curve.P, point2.Y)
+		point2.Y = point2.Y.Mod(point2.Y, curve.P)
 
 		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
+		if point1.X.Sign() == 0 && point1.Y.Sign() == 0 {
+			if s.Sign() == 0 {
+				continue // not the R that the last byte of sig selects
+			}
+			break
+		}
 		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
 
 		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
-- 
2.43.0


From 6728b246e27257c9dd4038f795f7f2527e662fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 09/52] fix: SM2 public key recovery uses the SM2 signature
 equations

---
 sm2_std.go | 110 +++++++++++++++++++++--------------------------------
 1 file changed, 43 insertions(+), 67 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index d252d33..3d49c10 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1663,75 +1663,51 @@ func sm2_std_decompress(in []byte) ([]byte, error){
 
 func sm2_std_recover_public(sig, msg []byte) ([]byte, error) {
 
-	if sig == nil || msg == nil || len(sig) != 65 || len(msg) != 32 {
+	if sig == nil || msg == nil || len(sig) != 65 || len(msg) != 32 || sig[64] > 1 {
 		return nil, errors.New("invalid data")
 	}
 
-	buf2 := make([]byte, 33)
-	hash := make([]byte, 32)
-	s := new(big.Int)
-	R := new(ecdsa.PublicKey)
-	G := new(ecdsa.PublicKey)
-
-	copy(hash, msg)
-	copy(buf2[1:], sig[:32])
-
 	curve := sm2_std
-
-	r_inv := new(big.Int).ModInverse(new(big.Int).SetBytes(sig[:32]), curve.N)
-	G.Curve = curve
-	G.X = curve.Gx
-	G.Y = curve.Gy
-
-	for k := 0; k < 2; k ++ {
-		if k == 0 {
-			buf2[0] = 0x02
-		}
-
-		if k == 1 {
-			buf2[0] = 0x03
-		}
-
-		if k == 0 {
-			if sig[64] == 1 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		if k == 1 {
-			if sig[64] == 0 {
-				s = new(big.Int).Sub(curve.N, new(big.Int).SetBytes(sig[32:64]))
-			}
-		}
-
-		buf1 := PointDecompress(buf2, ECC_CURVE_SM2_STANDARD)
-
-		R.Curve = curve
-		R.X = new(big.Int).SetBytes(buf1[1:33])
-		R.Y = new(big.Int).SetBytes(buf1[33:])
-
-		point1 := new(ecdsa.PublicKey)
-		point1.Curve = curve
-		point1.X, point1.Y = curve.ScalarMult(R.X, R.Y, s.Bytes())
-
-		point2 := new(ecdsa.PublicKey)
-		point2.Curve = curve
-		point2.X, point2.Y = curve.ScalarBaseMult(hash)
-
-		point2.Y = point2.Y.Sub(curve.P, point2.Y)
-
-		point1.X, point1.Y = curve.Add(point1.X, point1.Y, point2.X, point2.Y)
-		point2.X, point2.Y = curve.ScalarMult(point1.X, point1.Y, r_inv.Bytes())
-
-		if verifyesdsa(point2, hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])) {
-			pubkey := make([]byte, 64)
-			x := point2.X.Bytes()
-			y := point2.Y.Bytes()
-			copy(pubkey[32-len(x):32], x)
-			copy(pubkey[64-len(y):], y)
-
-			return pubkey, nil
-		}
+	r := new(big.Int).SetBytes(sig[:32])
+	s := new(big.Int).SetBytes(sig[32:64])
+	if r.Sign() == 0 || r.Cmp(curve.N) >= 0 || s.Sign() == 0 || s.Cmp(curve.N) >= 0 {
+		return nil, errors.New("invalid signature")
 	}
-	return nil, errors.New("failed to decompress")
-}
\ No newline at end of file
+
+	// r = x + e mod N, where x is the coordinate of R = s*G + (r+s)*P
+	x := new(big.Int).Sub(r, new(big.Int).SetBytes(msg))
+	x.Mod(x, curve.N)
+	t := new(big.Int).Add(r, s)
+	t_inv := new(big.Int).ModInverse(t.Mod(t, curve.N), curve.N)
+	if t_inv == nil {
+		return nil, errors.New("invalid signature")
+	}
+
+	buf := make([]byte, 33)
+	buf[0] = 0x02 + sig[64]
+	xBytes := x.Bytes()
+	copy(buf[33-len(xBytes):], xBytes)
+	R := PointDecompress(buf, ECC_CURVE_SM2_STANDARD)
+	if R == nil {
+		return nil, errors.New("failed to decompress")
+	}
+
+	// P = (r+s)^-1 * (R - s*G)
+	pub := new(ecdsa.PublicKey)
+	pub.Curve = curve
+	sGx, sGy := curve.ScalarBaseMult(s.Bytes())
+	sGy.Sub(curve.P, sGy)
+	pub.X, pub.Y = curve.Add(new(big.Int).SetBytes(R[1:33]), new(big.Int).SetBytes(R[33:]), sGx, sGy)
+	if pub.X.Sign() == 0 && pub.Y.Sign() == 0 {
+		return nil, errors.New("invalid signature")
+	}
+	pub.X, pub.Y = curve.ScalarMult(pub.X, pub.Y, t_inv.Bytes())
+
+	if !sm2_std_verify(pub, msg, nil, r, s) {
+		return nil, errors.New("failed to recover")
+	}
+	pubkey := make([]byte, 64)
+	pub.X.FillBytes(pubkey[:32])
+	pub.Y.FillBytes(pubkey[32:])
+	return pubkey, nil
+}
-- 
2.43.0


From 4899f7c1ec947fb03d426063d443cc8871d111c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 10/52] fix: SM2 verification rejects signatures whose point is
 at infinity

---
 sm2_std.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 3d49c10..138ee92 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1143,10 +1143,13 @@ func sm2_std_verify(pub *ecdsa.PublicKey, hash, uid []byte, r, s *big.Int) bool
 		return false
 	}
 
-	var x *big.Int
+	var x, y *big.Int
 	x1, y1 := c.ScalarBaseMult(s.Bytes())
 	x2, y2 := c.ScalarMult(pub.X, pub.Y, t.Bytes())
-	x, _ = c.Add(x1, y1, x2, y2)
+	x, y = c.Add(x1, y1, x2, y2)
+	if x.Sign() == 0 && y.Sign() == 0 {
+		return false
+	}
 
 	x.Add(x, e)
 	x.Mod(x, N)
-- 
2.43.0


From 02e975e0ff9d805cae6b3f0d75af29f003c960d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 11/52] fix: SM2 signing with the private key n-1 panics

---
 ecdsa.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecdsa.go b/ecdsa.go
index f350121..6c3adb9 100644
--- a/ecdsa.go
+++ b/ecdsa.go
@@ -151,7 +151,8 @@ func sign(privateKey, ID, hash []byte, name string) ([]byte, byte, error) {
 	} else if name == "sm2_std" {
 		sm2Curve = sm2_std
 
-		if privateKeyBig.Cmp(sm2Curve.Params().N) >= 0 {
+		// the private key is in [1, n-2]: signing inverts 1+d modulo n
+		if new(big.Int).Add(privateKeyBig, big.NewInt(1)).Cmp(sm2Curve.Params().N) >= 0 {
 			return nil, 0, ErrPrivateKeyIllegal
 		}
 
-- 
2.43.0


From be4e137a3194e020e91b8a38339e6c7dec958282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:25 +0000
Subject: [PATCH 12/52] fix: SM2 key agreement truncates keys of 8192 bytes and
 more

---
 sm2_std.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 138ee92..96bf096 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1276,7 +1276,7 @@ func sm2_std_decrypt(priv *ecdsa.PrivateKey, data []byte) ([]byte, error) {
 	return c, nil
 }
 
-func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint16) (key []byte) {
+func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit uint32) (key []byte) {
 
 	x := make([]byte, 32)
 	y := make([]byte, 32)
@@ -1291,9 +1291,9 @@ func ka_kdf(point *ecdsa.PublicKey, Zinitiator, Zresponder []byte, keyLengthbit
 	var hlen1 uint32
 
 	if keyLengthbit % 256 == 0 {
-		hlen1 = uint32(keyLengthbit / 256)
+		hlen1 = keyLengthbit / 256
 	} else {
-		hlen1 = uint32(keyLengthbit / 256) + 1
+		hlen1 = keyLengthbit / 256 + 1
 	}
 
 	for i := uint32(1); i <= hlen1; i ++ {
@@ -1457,7 +1457,7 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 		return nil, nil, err
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	s_check := ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 
@@ -1588,7 +1588,7 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 		return
 	}
 
-	key = ka_kdf(point1, Zinitiator, Zresponder, keylen * 8)
+	key = ka_kdf(point1, Zinitiator, Zresponder, uint32(keylen) * 8)
 
 	Sinner = ka_check(0x03, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
 	Souter = ka_check(0x02, Zinitiator, Zresponder, tmpPubkeyInitiator, tmpPubkeyResponder, point1)
-- 
2.43.0


From 52fafd46f9438e4367e2a700a3017f0abf183968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:53 +0000
Subject: [PATCH 13/52] fix: SM2 key agreement validates every public key and
 returns no key on failure

---
 eccset.go  |  9 +++------
 sm2_std.go | 37 +++++++++++++++++++++++++++++++++++--
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/eccset.go b/eccset.go
index 2f65e18..3408336 100644
--- a/eccset.go
+++ b/eccset.go
@@ -283,8 +283,7 @@ func KeyAgreement_initiator_step2(IDinitiator []byte,
 	var err error
 	key, Sout, err = sm2_std_ka_initiator_step2(IDinitiator, IDresponder, prikeyInitiator, pubkeyInitiator, pubkeyResponder, tmpPrikeyInitiator, tmpPubkeyInitiator, tmpPubkeyResponder, Sin, keylen)
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -310,8 +309,7 @@ func KeyAgreement_responder_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, nil, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
@@ -338,8 +336,7 @@ func KeyAgreement_responder_ElGamal_step1(IDinitiator []byte,
 	key, tmpPubkeyResponder, Sinner, Souter, err = sm2_std_ka_responder_step1(IDinitiator, IDresponder, prikeyResponder, pubkeyResponder, pubkeyInitiator, tmpPubkeyInitiator, random, keylen)
 
 	if err != nil {
-		ret = FAILURE
-		return
+		return nil, nil, nil, nil, FAILURE
 	}
 
 	ret = SUCCESS
diff --git a/sm2_std.go b/sm2_std.go
index 96bf096..4c68677 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -1362,6 +1362,11 @@ func sm2_std_ka_initiaor_step1() (tmpPrikeyInitiator, tmpPubkeyInitiator []byte)
 	return
 }
 
+// ka_isPoint reports whether the 64 bytes hold a point of the SM2 curve.
+func ka_isPoint(pubkey []byte) bool {
+	return len(pubkey) == 64 && isOnCurve(sm2_std, new(big.Int).SetBytes(pubkey[:32]), new(big.Int).SetBytes(pubkey[32:]))
+}
+
 func sm2_std_ka_initiator_step2(IDinitiator []byte,
 								IDresponder []byte,
 								prikeyInitiator []byte,
@@ -1382,11 +1387,21 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	x.SetBytes(tmpPubkeyResponder[:32])
 	y.SetBytes(tmpPubkeyResponder[32:])
 
-	if !sm2_std.IsOnCurve(&x, &y) {
+	if !isOnCurve(sm2_std, &x, &y) {
 		err = errors.New("invalid responder's tmp public key")
 		return
 	}
 
+	if !ka_isPoint(pubkeyResponder) {
+		err = errors.New("invalid responder public key")
+		return
+	}
+
+	if !ka_isPoint(pubkeyInitiator) {
+		err = errors.New("invalid initiator public key")
+		return
+	}
+
 	if tmpPubkeyInitiator == nil || len(tmpPubkeyInitiator) != 64 {
 		err = errors.New("invalid initiator's tmp public key")
 		return
@@ -1423,6 +1438,10 @@ func sm2_std_ka_initiator_step2(IDinitiator []byte,
 	point2.Y = new(big.Int).SetBytes(pubkeyResponder[32:])
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
+	if tmp1.Sign() == 0 || (point1.X.Sign() == 0 && point1.Y.Sign() == 0) {
+		err = errors.New("shared point at infinity")
+		return
+	}
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
@@ -1495,11 +1514,21 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	x.SetBytes(tmpPubkeyInitiator[:32])
 	y.SetBytes(tmpPubkeyInitiator[32:])
 
-	if !sm2_std.IsOnCurve(&x, &y) {
+	if !isOnCurve(sm2_std, &x, &y) {
 		err = errors.New("invalid initiator's tmp public key")
 		return
 	}
 
+	if !ka_isPoint(pubkeyInitiator) {
+		err = errors.New("invalid initiator public key")
+		return
+	}
+
+	if !ka_isPoint(pubkeyResponder) {
+		err = errors.New("invalid responder public key")
+		return
+	}
+
 	tmpPriResponder := make([]byte, 32)
 
 	if random == nil {
@@ -1554,6 +1583,10 @@ func sm2_std_ka_responder_step1(IDinitiator []byte,
 	point2.Y = new(big.Int).SetBytes(pubkeyInitiator[32:])
 
 	point1.X, point1.Y = sm2_std.Add(point1.X, point1.Y, point2.X, point2.Y)
+	if tmp1.Sign() == 0 || (point1.X.Sign() == 0 && point1.Y.Sign() == 0) {
+		err = errors.New("shared point at infinity")
+		return
+	}
 	point1.X, point1.Y = sm2_std.ScalarMult(point1.X, point1.Y, tmp1.Bytes())
 
 	if pubkeyInitiator == nil || len(pubkeyInitiator) != 64 {
-- 
2.43.0


From 6825dbc99fd9a05ad32f545e2fd87063d3b571c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:35 +0000
Subject: [PATCH 14/52] fix: private scalars of 2^255 and more in Ed25519 and
 X25519 arithmetic

---
 eddsa/ed25519.go | 15 ++++++++++++---
 eddsa/x25519.go  |  6 ++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 1a81267..e50de39 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -26,14 +26,22 @@ var (
 	ErrPrivateKeyIllegal = errors.New("Invalid private key data!")
 )
 
+// scalarFromBytes returns the private scalar reduced modulo the group order,
+// as the scalar multiplications take scalars below 2^255 only.
+func scalarFromBytes(prikey []byte) (scalar [32]byte) {
+	var wide [64]byte
+	copy(wide[:32], prikey)
+	edwards25519.ScReduce(&scalar, &wide)
+	return scalar
+}
+
 func ED25519_genPub(prikey []byte) ([]byte, error) {
 	if prikey == nil || len(prikey) != 32 {
 		return nil, ErrPrivateKeyIllegal
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := scalarFromBytes(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
@@ -167,7 +175,8 @@ func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	)
 	P1.FromBytes(point1)
 	one[0] = 1
-	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, scalar)
+	s := scalarFromBytes(scalar[:])
+	edwards25519.GeDoubleScalarMultVartime(&R, &one, &P1, &s)
 
 	edwards25519.FeInvert(&recip, &R.Z)
 	edwards25519.FeMul(&x, &R.X, &recip)
diff --git a/eddsa/x25519.go b/eddsa/x25519.go
index 8129c64..0ecbf74 100644
--- a/eddsa/x25519.go
+++ b/eddsa/x25519.go
@@ -27,8 +27,7 @@ func X25519_genPub(prikey []byte) ([]byte, error) {
 	}
 
 	var A edwards25519.ExtendedGroupElement
-	var hBytes [32]byte
-	copy(hBytes[:], prikey[:])
+	hBytes := scalarFromBytes(prikey)
 	edwards25519.GeScalarMultBase(&A, &hBytes)
 
 	var publicKeyBytes [32]byte
@@ -421,8 +420,7 @@ func sign_modify(sm, message, prikey, ed_pubkey, random []byte) []byte {
 
 	hram := x25519_sc_reduce(digest)
 	var Sbytes [32]byte
-	var pribytes [32]byte
-	copy(pribytes[:], prikey)
+	pribytes := scalarFromBytes(prikey)
 	edwards25519.ScMulAdd(&Sbytes, &hram, &pribytes, &nonce)
 
 	copy(sm[32:], Sbytes[:])
-- 
2.43.0


From 90c78f874fc0f8e7cc06ba4b7cf7f809e7ab10ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 15/52] fix: ED25519 signs with the scalar that its public key
 is derived from

---
 eddsa/ed25519.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index e50de39..0708231 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -61,13 +61,11 @@ func ED25519_sign(prikey, message []byte) ([]byte, error) {
 	if err != nil {
 		return nil, ErrPrivateKeyIllegal
 	}
-	var expandedSecretKey, digest1 [32]byte
+	var digest1 [32]byte
 	var messageDigest, hramDigest [64]byte
 
-	copy(expandedSecretKey[:], prikey[:])
-	expandedSecretKey[0] &= 248
-	expandedSecretKey[31] &= 63
-	expandedSecretKey[31] |= 64
+	// the public key is prikey*G with no clamping, so sign with the same scalar
+	expandedSecretKey := scalarFromBytes(prikey)
 	rand.Read(digest1[:])
 	h := sha512.New()
 	h.Write(digest1[:])
-- 
2.43.0


From 33c1b7288e6cc64e3da68749a6bd9448b2adf161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:37 +0000
Subject: [PATCH 16/52] fix: Ed25519 verification accepts signatures with S not
 below the group order

---
 eddsa/curve25519.go | 2 +-
 eddsa/ed25519.go    | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519.go b/eddsa/curve25519.go
index 1735074..9328fe7 100644
--- a/eddsa/curve25519.go
+++ b/eddsa/curve25519.go
@@ -102,7 +102,7 @@ func CURVE25519_verify(pubkey, message, sig []byte) bool {
 		return false
 	}
 
-	if len(sig) != 64 || sig[63]&224 != 0 {
+	if len(sig) != 64 || !scalarIsCanonical(sig[32:]) {
 		return false
 	}
 
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 0708231..4933c75 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -35,6 +35,12 @@ func scalarFromBytes(prikey []byte) (scalar [32]byte) {
 	return scalar
 }
 
+// scalarIsCanonical reports whether the scalar is below the group order.
+func scalarIsCanonical(scalar []byte) bool {
+	reduced := scalarFromBytes(scalar)
+	return subtle.ConstantTimeCompare(scalar, reduced[:]) == 1
+}
+
 func ED25519_genPub(prikey []byte) ([]byte, error) {
 	if prikey == nil || len(prikey) != 32 {
 		return nil, ErrPrivateKeyIllegal
@@ -105,7 +111,7 @@ func ED25519_verify(pubkey, message, sig []byte) bool {
 		return false
 	}
 
-	if len(sig) != 64 || sig[63]&224 != 0 {
+	if len(sig) != 64 || !scalarIsCanonical(sig[32:]) {
 		return false
 	}
 
-- 
2.43.0


From 3c94d539137cc86b346aa80b16dc4730dce97575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 17/52] fix: reject operands that are not points in Ed25519
 point arithmetic

---
 eccset.go        |  6 ++++++
 eddsa/ed25519.go | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/eccset.go b/eccset.go
index 3408336..8a807ad 100644
--- a/eccset.go
+++ b/eccset.go
@@ -408,6 +408,9 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return MulBaseG_Add(pointin, scalar, "sm2_std")
 		break
 	case ECC_CURVE_ED25519:
+		if !eddsa.IsPoint(pointin) {
+			return nil, false
+		}
 		var point1, s, point2 [32]byte
 		copy(point1[:], pointin)
 		copy(s[:], scalar)
@@ -482,6 +485,9 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return point, SUCCESS
 		break
 	case ECC_CURVE_ED25519:
+		if !eddsa.IsPoint(point1) || !eddsa.IsPoint(point2) {
+			return nil, FAILURE
+		}
 		var P1, P2, P [32]byte
 		copy(P1[:], point1)
 		copy(P2[:], point2)
diff --git a/eddsa/ed25519.go b/eddsa/ed25519.go
index 4933c75..9398a62 100644
--- a/eddsa/ed25519.go
+++ b/eddsa/ed25519.go
@@ -168,6 +168,19 @@ func feIsOne(f edwards25519.FieldElement) bool {
 	return true
 }
 
+// IsPoint reports whether the 32 bytes decode to a point of the curve.
+func IsPoint(point []byte) bool {
+	var (
+		P     edwards25519.ExtendedGroupElement
+		bytes [32]byte
+	)
+	if len(point) != 32 {
+		return false
+	}
+	copy(bytes[:], point)
+	return P.FromBytes(&bytes)
+}
+
 func ScalarMultBaseAdd(point1, scalar, point2 *[32]byte) bool {
 	var (
 		P1    edwards25519.ExtendedGroupElement   //p3
-- 
2.43.0


From 0b5c4c00fa7ff732e782a85a7e044740833e7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 18/52] fix: CURVE25519_SHA256 overwrites the caller's private
 key

---
 eddsa/curve25519_sha256.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 96d94ef..7899675 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -24,7 +24,8 @@ func CURVE25519_sha256_genPub(prikey []byte) ([]byte, error) {
 
 	pubkey := make([]byte, 32)
 
-	Keygen(pubkey, nil, prikey)
+	// Keygen clamps its key in place
+	Keygen(pubkey, nil, append([]byte(nil), prikey...))
 
 	return pubkey, nil
 }
@@ -37,7 +38,8 @@ func CURVE25519_sha256_sign(prikey, message []byte) ([]byte, error) {
 	pubkey := make([]byte, 32)
 	s := make([]byte, 32)
 
-	Keygen(pubkey, s, prikey)
+	// Keygen clamps its key in place
+	Keygen(pubkey, s, append([]byte(nil), prikey...))
 
 	digest := sha256.New()
 	digest.Write(message)
-- 
2.43.0


From 07189f36f16bfacc1ea414845b8b8d01593ed096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:26 +0000
Subject: [PATCH 19/52] fix: Pasta points are decoded from all three encodings
 and checked

---
 pasta/crypto.go | 24 +++++++++++++++++-------
 pasta/utils.go  | 26 +++++++++++++++++++++++++-
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index d955aca..d5a8a17 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -80,7 +80,9 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 		if err != nil {
 			return err
 		}
-		Decompress(a, compressed)
+		if !Decompress(a, compressed) {
+			return errors.New("invalid input data p, not the x coordinate of a point")
+		}
 	} else {
 		var x_mont, y_mont [4]uint64
 		var tmp [32]byte
@@ -89,14 +91,19 @@ func (a *Affine) FromBigEndianBytes(p []byte) error {
 				return errors.New("invalid input data p, first byte is not 0x04")
 			}
 			p = p[1:]
-		} else {
-			copy(tmp[:], reverseBytes(p[:32]))
-			FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
-			copy(tmp[:], reverseBytes(p[32:]))
-			FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		}
+		if !isFpBytes(p[:32]) || !isFpBytes(p[32:]) {
+			return errors.New("invalid input data p, coordinate out of range")
+		}
+		copy(tmp[:], reverseBytes(p[:32]))
+		FiatPastaFpToMontgomery(&x_mont, BytesArrayToU64Array(tmp))
+		copy(tmp[:], reverseBytes(p[32:]))
+		FiatPastaFpToMontgomery(&y_mont, BytesArrayToU64Array(tmp))
 		a.X.Set(x_mont)
 		a.Y.Set(y_mont)
+		if !AffineIsOnCurve(*a) {
+			return errors.New("invalid input data p, not a point of the curve")
+		}
 	}
 
 	return nil
@@ -133,7 +140,10 @@ func (c *Compressed) FromBigEndianBytes(p []byte) error {
 	} else if p[0] == 0x03 {
 		c.IsOdd = true
 	} else {
-		errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+		return errors.New("invalid input data p, first byte is not 0x02 or 0x03")
+	}
+	if !isFpBytes(p[1:]) {
+		return errors.New("invalid input data p, coordinate out of range")
 	}
 
 	var tmp [32]byte
diff --git a/pasta/utils.go b/pasta/utils.go
index 0bdc01b..9413113 100644
--- a/pasta/utils.go
+++ b/pasta/utils.go
@@ -1,6 +1,30 @@
 package pasta
 
-import "encoding/binary"
+import (
+	"bytes"
+	"encoding/binary"
+)
+
+// the moduli of the base field (fp) and of the scalar field (fq), big endian
+var (
+	fpModulus = u64ArrayToBigEndianBytes([4]uint64{0x992d30ed00000001, 0x224698fc094cf91b, 0x0, 0x4000000000000000})
+	fqModulus = u64ArrayToBigEndianBytes([4]uint64{0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0, 0x4000000000000000})
+)
+
+func u64ArrayToBigEndianBytes(in [4]uint64) []byte {
+	tmp := U64ArrayToBytesArray(in)
+	return reverseBytes(tmp[:])
+}
+
+// isFpBytes reports whether the 32 big endian bytes are below the modulus of fp.
+func isFpBytes(in []byte) bool {
+	return len(in) == 32 && bytes.Compare(in, fpModulus) < 0
+}
+
+// isFqBytes reports whether the 32 big endian bytes are below the modulus of fq.
+func isFqBytes(in []byte) bool {
+	return len(in) == 32 && bytes.Compare(in, fqModulus) < 0
+}
 
 func BytesArrayToU64Array(bytes [32]byte) (out [4]uint64) {
 	for i := 0; i < 4; i++ {
-- 
2.43.0


From 1882eb01de5808b4c35aef6ac839a40602e85dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:27 +0000
Subject: [PATCH 20/52] fix: Pasta nonces cover only a sixteenth of the scalar
 range

---
 pasta/pasta.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 1c77dcb..3843061 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -28,7 +28,7 @@ func Sign(privateKey, msg []byte) ([]byte, error) {
 	var k Scalar
 	for {
 		rand.Read(kBytes[:])
-		kBytes[0] &= 0x03
+		kBytes[0] &= 0x3F
 
 		k.Set(BigEndianBytesToFqMontgomeryArray(kBytes[:]))
 		var k_nonzero uint64
-- 
2.43.0


From 04a091a25e02aedfcf56747e52a7d896a4da4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:29 +0000
Subject: [PATCH 21/52] fix: Pasta rejects the zero private key, the public key
 at infinity and signatures out of range

---
 pasta/pasta.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 3843061..6540335 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -1,6 +1,7 @@
 package pasta
 
 import (
+	"bytes"
 	"crypto/rand"
 	"errors"
 )
@@ -13,6 +14,10 @@ func GenPublicKey(privateKey []byte) ([]byte, error) {
 		return nil, errors.New("invalid private key")
 	}
 
+	if bytes.Equal(privateKey, make([]byte, 32)) {
+		return nil, errors.New("invalid private key")
+	}
+
 	var publicKey Affine
 	GeneratePubkey(&publicKey, BigEndianBytesToFqMontgomeryArray(privateKey))
 	return publicKey.ToBigEndianBytes(), nil
@@ -73,7 +78,10 @@ func Verify(publicKey, msg, sig []byte) bool {
 	}
 	var pub Affine
 	err := pub.FromBigEndianBytes(publicKey)
-	if err != nil {
+	if err != nil || AffineIsZero(pub) == 1 {
+		return false
+	}
+	if !isFpBytes(sig[:32]) || !isFqBytes(sig[32:]) {
 		return false
 	}
 
@@ -126,12 +134,10 @@ func PointMulBaseGAdd(pointin, scalar []byte) ([]byte, error) {
 	if pointin == nil || scalar == nil || len(scalar) != 32 {
 		return nil, errors.New("invalid input data")
 	}
-	pointTmp, err := GenPublicKey(scalar)
-	if err != nil {
-		return nil, err
-	}
+	var pointTmp Affine
+	GeneratePubkey(&pointTmp, BigEndianBytesToFqMontgomeryArray(scalar))
 
-	return PointAdd(pointTmp, pointin)
+	return PointAdd(pointTmp.ToBigEndianBytes(), pointin)
 }
 
 func PointAdd(point1, point2 []byte) ([]byte, error) {
-- 
2.43.0


From 7fd56033559b9859384134378d623d0640f222eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 22/52] fix: Pasta point negation, and addition of equal points
 in different coordinates

---
 pasta/crypto.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index d5a8a17..0c85294 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -450,6 +450,11 @@ func GroupAdd(r *Group, p, q Group) {
 	FieldMul(&r.Y, p.Z, z1z1)
 	FieldMul(&s2, q.Y, r.Y)
 
+	if FieldEq(u1, u2) == 1 && FieldEq(s1, s2) == 1 {
+		GroupDbl(r, p)
+		return
+	}
+
 	var h, i, j, w, v Field
 	FieldSub(&h, u2, u1)
 	FieldAdd(&r.Z, h, h)
@@ -512,7 +517,7 @@ func GroupScalarMul(r *Group, k Scalar, p Group) {
 
 func GroupNegate(q *Group, p Group) {
 	FieldCopy(&q.X, p.X)
-	FieldCopy(&q.Y, p.Y)
+	FieldNegate(&q.Y, p.Y)
 	FieldCopy(&q.Z, p.Z)
 }
 
-- 
2.43.0


From f07c500b41f9213584a75f64d686f9cb453d71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:31 +0000
Subject: [PATCH 23/52] fix: Pasta point arithmetic reports failures and the
 point at infinity

---
 eccset.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/eccset.go b/eccset.go
index 8a807ad..2db803a 100644
--- a/eccset.go
+++ b/eccset.go
@@ -392,6 +392,17 @@ func Point_mulBaseG(scalar []byte, typeChoose uint32) []byte {
 	return nil
 }
 
+// isZeroBytes reports whether the bytes are all zero, the encoding of the Pasta
+// point at infinity.
+func isZeroBytes(in []byte) bool {
+	for _, b := range in {
+		if b != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte, isinfinity bool) {
 	if scalar == nil || len(scalar) != 32 {
 		return nil, false
@@ -424,7 +435,13 @@ func Point_mulBaseG_add(pointin, scalar []byte, typeChoose uint32) (point []byte
 		return bls12_381.ScalarMultBaseAdd(pointin, scalar)
 		break
 	case ECC_CURVE_PASTA:
-		pointout, _ := pasta.PointMulBaseGAdd(pointin, scalar)
+		pointout, err := pasta.PointMulBaseGAdd(pointin, scalar)
+		if err != nil {
+			return nil, false
+		}
+		if isZeroBytes(pointout) {
+			return nil, true
+		}
 		return pointout, false
 	default:
 		return nil, false
@@ -498,7 +515,10 @@ func Point_add(point1, point2 []byte, typeChoose uint32) ([]byte, uint16) {
 		return P[:], SUCCESS
 		break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointAdd(point1, point2)
+		pout, err := pasta.PointAdd(point1, point2)
+		if err != nil || isZeroBytes(pout) {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
@@ -562,7 +582,10 @@ func Point_mul(pointin, scalar []byte, typeChoose uint32) ([]byte, uint16) {
 	//	return P[:], SUCCESS
 	//	break
 	case ECC_CURVE_PASTA:
-		pout, _ := pasta.PointMul(pointin, scalar)
+		pout, err := pasta.PointMul(pointin, scalar)
+		if err != nil || isZeroBytes(pout) {
+			return nil, FAILURE
+		}
 		return pout, SUCCESS
 		break
 	default:
-- 
2.43.0


From b79bc9cd151d8c39e84ed8b4a05024d0b3ab1405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 24/52] fix: BLS checks private keys in signing and public keys
 in verification

Signing accepted zero and keys of the group order and more, key
derivation accepted zero, and verification dereferenced a nil point for
a public key that does not decode and accepted the point at infinity,
for which any message verifies with the signature at infinity.
---
 bls12_381/bls12-381.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index df04c7e..d66fa64 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -18,11 +18,16 @@ func isScalarLegal(scalar []byte) bool {
 	return true
 }
 
+// isPrivateKeyLegal reports whether the scalar is in [1, order-1].
+func isPrivateKeyLegal(privateKey []byte) bool {
+	return isScalarLegal(privateKey) && new(big.Int).SetBytes(privateKey).Sign() != 0
+}
+
 func GenPublicKey(privateKey []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key length")
 	}
-	if !isScalarLegal(privateKey) {
+	if !isPrivateKeyLegal(privateKey) {
 		return nil, errors.New("invalid private key data")
 	}
 	publicKey := g1pubs.PrivToPub(newSK(privateKey))
@@ -43,6 +48,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key lenth!")
 	}
+	if !isPrivateKeyLegal(privateKey) {
+		return nil, errors.New("invalid private key data")
+	}
 	prikey := NewScalar(privateKey)
 
 	return scheme.Sign(prikey, message)
@@ -56,7 +64,12 @@ func Verify(publicKey, message, signature []byte) bool {
 		return false
 	}
 	pk := NullOwcryptG1()
-	pk.UnmarshalBinary(publicKey)
+	if err := pk.UnmarshalBinary(publicKey); err != nil {
+		return false
+	}
+	if pk.Equal(pk.Null()) {
+		return false
+	}
 	err := scheme.Verify(pk, message, signature)
 
 	if err != nil {
-- 
2.43.0


From 4bbf4dbb6a73948313e389ee900c2f10e660b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 25/52] fix: BLS base point multiply-and-add on invalid
 operands and at infinity

An operand that does not decode or a scalar out of range caused a nil
dereference, and a sum at infinity was compared with the all-zero string,
which is not its encoding, so it was returned as a point.
---
 bls12_381/bls12-381.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index d66fa64..eeb68cb 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -110,17 +110,26 @@ func scalarMulG(scalar []byte) (*g1pubs.PublicKey, error) {
 }
 
 func ScalarMultBaseAdd(pointin, scalar []byte) ([]byte, bool) {
+	if len(pointin) != 48 || NullOwcryptG1().UnmarshalBinary(pointin) != nil {
+		return nil, false
+	}
 
-	pin, _ := newPK(pointin)
-
-	pScalar, _ := scalarMulG(scalar)
-
-	pout := g1pubs.NewPublicKeyFromG1(pin.GetPoint().Add(pScalar.GetPoint()).ToAffine())
+	pin, err := newPK(pointin)
+	if err != nil {
+		return nil, false
+	}
 
-	poutBytes := pout.Serialize()
+	pScalar, err := scalarMulG(scalar)
+	if err != nil {
+		return nil, false
+	}
 
-	if new(big.Int).SetBytes(poutBytes[:]).Cmp(big.NewInt(0)) == 0 {
+	sum := pin.GetPoint().Add(pScalar.GetPoint())
+	if sum.IsZero() {
 		return nil, true
 	}
+
+	poutBytes := g1pubs.NewPublicKeyFromG1(sum.ToAffine()).Serialize()
+
 	return poutBytes[:], false
-}
\ No newline at end of file
+}
-- 
2.43.0


From 8ba6330e6bff3b99196acb816b210081810161a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 26/52] fix: BLS aggregation ignores the bytes after a
 signature

---
 bls12_381/bls12-381.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index eeb68cb..62f4be1 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -81,6 +81,11 @@ func Verify(publicKey, message, signature []byte) bool {
 func AggregateSignatures(sigs ...[]byte) ([]byte, error) {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
+	for _, s := range sigs {
+		if len(s) != 96 {
+			return nil, errors.New("invalid signature length")
+		}
+	}
 
 	return scheme.AggregateSignatures(sigs...)
 }
-- 
2.43.0


From 0e4c9ca4dae0f80e7c7362e5163afea7bff86062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:58 +0000
Subject: [PATCH 27/52] fix: BLS signs messages without a domain separation tag
 as the point at infinity

Such a message is not hashed to the curve; its hash stayed at infinity,
so its signature was the point at infinity, and that signature verified
for every message without a tag and every public key.
---
 bls12_381/bls12-381.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bls12_381/bls12-381.go b/bls12_381/bls12-381.go
index 62f4be1..652ee6d 100644
--- a/bls12_381/bls12-381.go
+++ b/bls12_381/bls12-381.go
@@ -1,6 +1,7 @@
 package bls12_381
 
 import (
+	"bytes"
 	"errors"
 	sig "github.com/drand/kyber/sign/bls"
 	"github.com/phoreproject/bls/g1pubs"
@@ -23,6 +24,12 @@ func isPrivateKeyLegal(privateKey []byte) bool {
 	return isScalarLegal(privateKey) && new(big.Int).SetBytes(privateKey).Sign() != 0
 }
 
+// hasDomain reports whether the message starts with the domain separation tag of
+// one of the schemes; only such messages can be hashed to the curve.
+func hasDomain(message []byte) bool {
+	return bytes.HasPrefix(message, []byte(basic_scheme_dst)) || bytes.HasPrefix(message, []byte(aug_scheme_dst))
+}
+
 func GenPublicKey(privateKey []byte) ([]byte, error) {
 	if len(privateKey) != 32 {
 		return nil, errors.New("invalid private key length")
@@ -51,6 +58,9 @@ func Sign(privateKey, message []byte) ([]byte, error) {
 	if !isPrivateKeyLegal(privateKey) {
 		return nil, errors.New("invalid private key data")
 	}
+	if !hasDomain(message) {
+		return nil, errors.New("message has no domain separation tag")
+	}
 	prikey := NewScalar(privateKey)
 
 	return scheme.Sign(prikey, message)
@@ -60,7 +70,7 @@ func Verify(publicKey, message, signature []byte) bool {
 	pairing := NewBLS12381Suite()
 	scheme := sig.NewSchemeOnG2(pairing)
 
-	if len(publicKey) != 48 || len(message) == 0 || len(signature) != 96 {
+	if len(publicKey) != 48 || !hasDomain(message) || len(signature) != 96 {
 		return false
 	}
 	pk := NullOwcryptG1()
-- 
2.43.0


From bcc754573807f2153d443e984b5478086d4a93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 28/52] fix: BLS verification writes into the spare capacity of
 the public key

---
 eccset.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eccset.go b/eccset.go
index 2db803a..917b01d 100644
--- a/eccset.go
+++ b/eccset.go
@@ -178,8 +178,7 @@ func Verify(pubkey []byte, ID []byte, message []byte, signature []byte, typeChoo
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG:
-		message = append(pubkey, message...)
-		message = append([]byte(AUG_SCHEME_DST), message...)
+		message = append(append([]byte(AUG_SCHEME_DST), pubkey...), message...)
 		pass = bls12_381.Verify(pubkey, message, signature)
 		break
 	case ECC_CURVE_PASTA:
-- 
2.43.0


From 850a612e869ac82b1e73d299e14c2bbbe0b9c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 29/52] fix: cloning a SHAKE256 hash after reading from it
 panics

The capacity of the buffer reaches to the end of the storage, which is
larger than the rate of every instance but SHAKE128.
---
 sha3/sha3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sha3/sha3.go b/sha3/sha3.go
index 65b5031..2d82e1b 100755
--- a/sha3/sha3.go
+++ b/sha3/sha3.go
@@ -69,7 +69,7 @@ func (d *state) clone() *state {
 	if ret.state == spongeAbsorbing {
 		ret.buf = ret.storage[:len(ret.buf)]
 	} else {
-		ret.buf = ret.storage[d.rate-cap(d.buf) : d.rate]
+		ret.buf = ret.storage[d.rate-len(d.buf) : d.rate]
 	}
 
 	return &ret
-- 
2.43.0


From 20a4ceefe23c3370cad7b8aec9c6c8ad896b2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 30/52] fix: SHA-3 converts short inputs to an array that
 reaches past their end

Builds with pointer checks (-race, -d=checkptr) abort with "converted
pointer straddles multiple allocations".
---
 sha3/xor_unaligned.go | 36 ++++--------------------------------
 1 file changed, 4 insertions(+), 32 deletions(-)

diff --git a/sha3/xor_unaligned.go b/sha3/xor_unaligned.go
index 929a486..888a788 100755
--- a/sha3/xor_unaligned.go
+++ b/sha3/xor_unaligned.go
@@ -10,38 +10,10 @@ package sha3
 import "unsafe"
 
 func xorInUnaligned(d *state, buf []byte) {
-	bw := (*[maxRate / 8]uint64)(unsafe.Pointer(&buf[0]))
-	n := len(buf)
-	if n >= 72 {
-		d.a[0] ^= bw[0]
-		d.a[1] ^= bw[1]
-		d.a[2] ^= bw[2]
-		d.a[3] ^= bw[3]
-		d.a[4] ^= bw[4]
-		d.a[5] ^= bw[5]
-		d.a[6] ^= bw[6]
-		d.a[7] ^= bw[7]
-		d.a[8] ^= bw[8]
-	}
-	if n >= 104 {
-		d.a[9] ^= bw[9]
-		d.a[10] ^= bw[10]
-		d.a[11] ^= bw[11]
-		d.a[12] ^= bw[12]
-	}
-	if n >= 136 {
-		d.a[13] ^= bw[13]
-		d.a[14] ^= bw[14]
-		d.a[15] ^= bw[15]
-		d.a[16] ^= bw[16]
-	}
-	if n >= 144 {
-		d.a[17] ^= bw[17]
-	}
-	if n >= 168 {
-		d.a[18] ^= bw[18]
-		d.a[19] ^= bw[19]
-		d.a[20] ^= bw[20]
+	// The buffer may be shorter than maxRate, so its words are addressed one
+	// by one rather than through an array type that would reach past its end.
+	for i := 0; i < len(buf)/8; i++ {
+		d.a[i] ^= *(*uint64)(unsafe.Pointer(&buf[8*i]))
 	}
 }
 
-- 
2.43.0


From 65006043ee29442380f52c72df46e7b65e4f2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:05 +0000
Subject: [PATCH 31/52] fix: blake2s.New writes the default size into the
 caller's configuration

---
 blake2s/blake2s.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blake2s/blake2s.go b/blake2s/blake2s.go
index ad22625..6e56595 100644
--- a/blake2s/blake2s.go
+++ b/blake2s/blake2s.go
@@ -96,7 +96,9 @@ func New(c *Config) (hash.Hash, error) {
 		c = defaultConfig
 	} else {
 		if c.Size == 0 {
-			c.Size = Size
+			sized := *c
+			sized.Size = Size
+			c = &sized
 		}
 		if err := verifyConfig(c); err != nil {
 			return nil, err
-- 
2.43.0


From fee4554c10c6c0508db29cd34e3f9ffd1d1ee357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:06 +0000
Subject: [PATCH 32/52] fix: BLAKE2s digests of more than 32 bytes panic or are
 truncated modulo 256

---
 hashset.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashset.go b/hashset.go
index 12890fe..6d8547a 100644
--- a/hashset.go
+++ b/hashset.go
@@ -224,6 +224,9 @@ func Hash(data []byte, digestLen uint16, typeChoose uint32) []byte {
 		break
 
 	case HASH_ALG_BLAKE2S:
+		if digestLen > blake2s.Size {
+			return nil
+		}
 		h := blake2s.NewMAC(uint8(digestLen), nil)
 
 		_, err := h.Write(data)
-- 
2.43.0


From 7bcf098afaaab4f81bf0dfba2d715f6dbbec00db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:21 +0000
Subject: [PATCH 33/52] fix: SM3 Sum changes the state and hashes its argument

hash.Hash requires Sum to append the digest to its argument and to leave
the state alone; it absorbed the argument, returned the digest without
it, and a second Sum returned another digest.
---
 sm3/sm3.go | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 997f47a..84c575b 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -159,24 +159,18 @@ func (sm3 *SM3) Write(p []byte) (int, error) {
 }
 
 func (sm3 *SM3) Sum(in []byte) []byte {
-	sm3.Write(in)
-	msg := sm3.pad()
+	// Finish a copy of the state so that the caller can keep writing and summing.
+	dup := *sm3
+	dup.unhandleMsg = append([]byte{}, sm3.unhandleMsg...)
+	msg := dup.pad()
 
-	sm3.update(msg, len(msg)/sm3.BlockSize())
-
-	needed := sm3.Size()
-	if cap(in)-len(in) < needed {
-		newIn := make([]byte, len(in), len(in)+needed)
-		copy(newIn, in)
-		in = newIn
-	}
-	out := in[len(in) : len(in)+needed]
+	dup.update(msg, len(msg)/dup.BlockSize())
 
+	var out [32]byte
 	for i := 0; i < 8; i++ {
-		binary.BigEndian.PutUint32(out[i*4:], sm3.digest[i])
+		binary.BigEndian.PutUint32(out[i*4:], dup.digest[i])
 	}
-	return out
-
+	return append(in, out[:]...)
 }
 
 func Sm3Sum(data []byte) []byte {
-- 
2.43.0


From 3808891972107c569942b2efcf99c2a8969062f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 34/52] fix: SM3 message length overflows on 32-bit platforms

---
 sm3/sm3.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm3/sm3.go b/sm3/sm3.go
index 84c575b..015761b 100755
--- a/sm3/sm3.go
+++ b/sm3/sm3.go
@@ -147,7 +147,7 @@ func (sm3 *SM3) Reset() {
 
 func (sm3 *SM3) Write(p []byte) (int, error) {
 	toWrite := len(p)
-	sm3.length += uint64(len(p) * 8)
+	sm3.length += uint64(len(p)) * 8
 
 	msg := append(sm3.unhandleMsg, p...)
 	nblocks := len(msg) / sm3.BlockSize()
-- 
2.43.0


From 5d48f402d97cc488612504ac9b99fae3ff39e268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:03 +0000
Subject: [PATCH 35/52] fix: data race in the choice of the BLS12-381 field
 multiplication

The first groups and engines created by concurrent goroutines all wrote
the choice, and target groups multiplied before anything had chosen.
---
 bls12_381/bls/arithmetic_decl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bls12_381/bls/arithmetic_decl.go b/bls12_381/bls/arithmetic_decl.go
index fab5743..03f7ab6 100644
--- a/bls12_381/bls/arithmetic_decl.go
+++ b/bls12_381/bls/arithmetic_decl.go
@@ -9,6 +9,11 @@ import (
 var mul func(c, a, b *fe) = mulADX
 var mulAssign func(a, b *fe) = mulAssignADX
 
+// The multiplication is chosen before any goroutine can use it.
+func init() {
+	cfgArch()
+}
+
 func cfgArch() {
 	if !x86ArchitectureSet {
 		if !(cpu.X86.HasADX && cpu.X86.HasBMI2) || forceNonADXArch {
-- 
2.43.0


From 66d3658e338b052ee6b428ba6ee3f51187de84c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:04 +0000
Subject: [PATCH 36/52] fix: the pairing engine modifies the caller's points

AddPairInv negated its G1 argument in place, so checking the same points
again gave another result, and both methods normalised the arguments.
---
 bls12_381/bls/pairing.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bls12_381/bls/pairing.go b/bls12_381/bls/pairing.go
index 97adc55..b78a0cd 100644
--- a/bls12_381/bls/pairing.go
+++ b/bls12_381/bls/pairing.go
@@ -52,7 +52,8 @@ func newEngineTemp() pairingEngineTemp {
 
 // AddPair adds a g1, g2 point pair to pairing engine
 func (e *Engine) AddPair(g1 *PointG1, g2 *PointG2) *Engine {
-	p := newPair(g1, g2)
+	// Work on copies: the points are brought to affine form in place.
+	p := newPair(e.G1.Copy(&PointG1{}, g1), e.G2.Copy(&PointG2{}, g2))
 	if !e.isZero(p) {
 		e.affine(p)
 		e.pairs = append(e.pairs, p)
@@ -62,8 +63,8 @@ func (e *Engine) AddPair(g1 *PointG1, g2 *PointG2) *Engine {
 
 // AddPairInv adds a G1, G2 point pair to pairing engine. G1 point is negated.
 func (e *Engine) AddPairInv(g1 *PointG1, g2 *PointG2) *Engine {
-	e.G1.Neg(g1, g1)
-	e.AddPair(g1, g2)
+	neg := e.G1.Neg(&PointG1{}, g1)
+	e.AddPair(neg, g2)
 	return e
 }
 
-- 
2.43.0


From 228c0834bd517e4a1edeae6369a172bb34bc7e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:06 +0000
Subject: [PATCH 37/52] fix: multi-exponentiation clears the caller's slice of
 powers

---
 bls12_381/bls/g1.go | 2 ++
 bls12_381/bls/g2.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index a273890..fe8525e 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -455,6 +455,8 @@ func (g *G1) MultiExp(r *PointG1, points []*PointG1, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	// The powers are shifted below, so work on a copy of the slice.
+	powers = append([]*big.Int(nil), powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index 99feffd..5cd0e35 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -459,6 +459,8 @@ func (g *G2) MultiExp(r *PointG2, points []*PointG2, powers []*big.Int) (*PointG
 	if len(points) != len(powers) {
 		return nil, fmt.Errorf("point and scalar vectors should be in same length")
 	}
+	// The powers are shifted below, so work on a copy of the slice.
+	powers = append([]*big.Int(nil), powers...)
 	var c uint32 = 3
 	if len(powers) >= 32 {
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
-- 
2.43.0


From a89042648d36686740b4bfb4106e94eaef44ae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:07 +0000
Subject: [PATCH 38/52] fix: hash to curve accepts domains of more than 255
 bytes

---
 bls12_381/bls/hash_to_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bls12_381/bls/hash_to_field.go b/bls12_381/bls/hash_to_field.go
index 60f8234..bd46fdb 100644
--- a/bls12_381/bls/hash_to_field.go
+++ b/bls12_381/bls/hash_to_field.go
@@ -22,10 +22,10 @@ func hashToFpXMDSHA256(msg []byte, domain []byte, count int) ([]*fe, error) {
 
 func expandMsgSHA256XMD(msg []byte, domain []byte, outLen int) ([]byte, error) {
 	h := sha256.New()
-	domainLen := uint8(len(domain))
-	if domainLen > 255 {
+	if len(domain) > 255 {
 		return nil, fmt.Errorf("invalid domain length")
 	}
+	domainLen := uint8(len(domain))
 	// DST_prime = DST || I2OSP(len(DST), 1)
 	// b_0 = H(Z_pad || msg || l_i_b_str || I2OSP(0, 1) || DST_prime)
 	_, _ = h.Write(make([]byte, h.BlockSize()))
-- 
2.43.0


From 43b736950f4a6e8b92c016ca09df9b4df23be5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 39/52] fix: identity and difference in the BLS12-381 target
 group

The group is multiplicative, but Null gave the zero of the field, Sub the
difference of the field, and One left the receiver alone.
---
 bls12_381/bls/gt.go | 3 +--
 bls12_381/gt.go     | 9 ++++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/bls12_381/bls/gt.go b/bls12_381/bls/gt.go
index 9e2c27f..3c3262a 100644
--- a/bls12_381/bls/gt.go
+++ b/bls12_381/bls/gt.go
@@ -20,8 +20,7 @@ func (e *E) Set(e2 *E) *E {
 
 // One sets a new target group element to one
 func (e *E) One() *E {
-	e = new(fe12).one()
-	return e
+	return e.one()
 }
 
 // IsOne returns true if given element equals to one
diff --git a/bls12_381/gt.go b/bls12_381/gt.go
index 5d3b11a..e73f3b9 100644
--- a/bls12_381/gt.go
+++ b/bls12_381/gt.go
@@ -26,11 +26,8 @@ func (k *OwcryptGT) Equal(kk kyber.Point) bool {
 	return k.f.Equal(kk.(*OwcryptGT).f)
 }
 
-const gtLength = 576
-
 func (k *OwcryptGT) Null() kyber.Point {
-	var zero [gtLength]byte
-	k.f, _ = bls.NewGT().FromBytes(zero[:])
+	k.f = bls.NewGT().New()
 	return k
 }
 
@@ -63,7 +60,9 @@ func (k *OwcryptGT) Add(a, b kyber.Point) kyber.Point {
 func (k *OwcryptGT) Sub(a, b kyber.Point) kyber.Point {
 	aa := a.(*OwcryptGT)
 	bb := b.(*OwcryptGT)
-	bls.NewGT().Sub(k.f, aa.f, bb.f)
+	gt, inv := bls.NewGT(), bls.NewGT().New()
+	gt.Inverse(inv, bb.f)
+	gt.Mul(k.f, aa.f, inv)
 	return k
 }
 
-- 
2.43.0


From d68008eb65c6c91d4ebe57680fbc1c74c6f50d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 40/52] fix: return infinity from the G1 map for inputs in the
 kernel of the isogeny

---
 bls12_381/bls/g1.go      | 12 +++++++++---
 bls12_381/bls/isogeny.go |  7 ++++++-
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index fe8525e..a064455 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -517,7 +517,9 @@ func (g *G1) MapToCurve(in []byte) (*PointG1, error) {
 		return nil, err
 	}
 	x, y := swuMapG1(u)
-	isogenyMapG1(x, y)
+	if !isogenyMapG1(x, y) {
+		return g.Zero(), nil
+	}
 	one := one()
 	p := &PointG1{*x, *y, *one}
 	g.ClearCofactor(p)
@@ -535,7 +537,9 @@ func (g *G1) EncodeToPoint(msg, domain []byte) (*PointG1, error) {
 	}
 	u := hashRes[0]
 	x, y := swuMapG1(u)
-	isogenyMapG1(x, y)
+	if !isogenyMapG1(x, y) {
+		return g.Zero(), nil
+	}
 	one := one()
 	p := &PointG1{*x, *y, *one}
 	g.ClearCofactor(p)
@@ -558,7 +562,9 @@ func (g *G1) HashToCurve(msg, domain []byte) (*PointG1, error) {
 	p0, p1 := &PointG1{*x0, *y0, *one}, &PointG1{*x1, *y1, *one}
 	g.Add(p0, p0, p1)
 	g.Affine(p0)
-	isogenyMapG1(&p0[0], &p0[1])
+	if !isogenyMapG1(&p0[0], &p0[1]) {
+		return g.Zero(), nil
+	}
 	g.ClearCofactor(p0)
 	return g.Affine(p0), nil
 }
diff --git a/bls12_381/bls/isogeny.go b/bls12_381/bls/isogeny.go
index 67b4e17..fa026a1 100644
--- a/bls12_381/bls/isogeny.go
+++ b/bls12_381/bls/isogeny.go
@@ -1,7 +1,8 @@
 package bls
 
 // isogenyMapG1 applies 11-isogeny map for BLS12-381 G1 defined at draft-irtf-cfrg-hash-to-curve-06.
-func isogenyMapG1(x, y *fe) {
+// It returns false if the point is in the kernel, that is if its image is the point at infinity.
+func isogenyMapG1(x, y *fe) bool {
 	// https://tools.ietf.org/html/draft-irtf-cfrg-hash-to-curve-06#appendix-C.2
 	params := isogenyConstansG1
 	degree := 15
@@ -20,6 +21,9 @@ func isogenyMapG1(x, y *fe) {
 		add(yNum, yNum, params[2][i])
 		add(yDen, yDen, params[3][i])
 	}
+	if xDen.isZero() || yDen.isZero() {
+		return false
+	}
 	inverse(xDen, xDen)
 	inverse(yDen, yDen)
 	mul(xNum, xNum, xDen)
@@ -27,6 +31,7 @@ func isogenyMapG1(x, y *fe) {
 	mul(yNum, yNum, y)
 	x.Set(xNum)
 	y.Set(yNum)
+	return true
 }
 
 // isogenyMapG2 applies 11-isogeny map for BLS12-381 G1 defined at draft-irtf-cfrg-hash-to-curve-06.
-- 
2.43.0


From 138d85c4f2adee379457afc1cd14a1eea2225008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:39 +0000
Subject: [PATCH 41/52] fix: SM2 scalar multiplication panics on scalars with
 leading zeros beyond 32 bytes

---
 sm2_std.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 4c68677..41c9df9 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -193,15 +193,11 @@ var sm2_stdPrecomputed = [9 * 2 * 15 * 2]uint32{
 }
 
 func sm2_stdGetScalar(b *[32]byte, a []byte) {
-	var scalarBytes []byte
-
 	n := new(big.Int).SetBytes(a)
 	if n.Cmp(sm2_std.N) >= 0 {
 		n.Mod(n, sm2_std.N)
-		scalarBytes = n.Bytes()
-	} else {
-		scalarBytes = a
 	}
+	scalarBytes := n.Bytes()
 	for i, v := range scalarBytes {
 		b[len(scalarBytes)-(1+i)] = v
 	}
-- 
2.43.0


From a47dbb07360a8fcc117d2e4bba4720d4af0dd993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 42/52] fix: carry of the low word in the BLS12-381 field
 multiplication without ADX

---
 bls12_381/bls/arithmetic_x86.s | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bls12_381/bls/arithmetic_x86.s b/bls12_381/bls/arithmetic_x86.s
index fc8660b..5ac4477 100644
--- a/bls12_381/bls/arithmetic_x86.s
+++ b/bls12_381/bls/arithmetic_x86.s
@@ -952,6 +952,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, SI
 	ADCQ DX, R13
 	// | SI is idle now
 
@@ -1017,6 +1018,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, DI
 	ADCQ DX, R13
 	// | DI is idle now
 
@@ -1084,6 +1086,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, CX
 	ADCQ DX, R13
 	// CX is idle now
 
@@ -1148,6 +1151,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R14
 	ADCQ DX, R13
 	// R14 is idle now
 
@@ -1212,6 +1216,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R15
 	ADCQ DX, R13
 	// R15 is idle now
 
@@ -1284,6 +1289,7 @@ TEXT ·mulNoADX(SB), NOSPLIT, $16-24
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R8
 	ADCQ DX, R13
 	// R8 is idle now
 
@@ -1807,6 +1813,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, SI
 	ADCQ DX, R13
 	// | SI is idle now
 
@@ -1872,6 +1879,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, DI
 	ADCQ DX, R13
 	// | DI is idle now
 
@@ -1939,6 +1947,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, CX
 	ADCQ DX, R13
 	// CX is idle now
 
@@ -2003,6 +2012,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R14
 	ADCQ DX, R13
 	// R14 is idle now
 
@@ -2067,6 +2077,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R15
 	ADCQ DX, R13
 	// R15 is idle now
 
@@ -2139,6 +2150,7 @@ TEXT ·mulAssignNoADX(SB), NOSPLIT, $16-16
 	MOVQ $0, R13
 	MOVQ ·modulus+0(SB), AX
 	MULQ BX
+	ADDQ AX, R8
 	ADCQ DX, R13
 	// R8 is idle now
 
-- 
2.43.0


From 95913d741cada044a440f5d43082d52224a42c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 43/52] fix: portable BLS12-381 field squaring drops carries
 into the third word

---
 bls12_381/bls/arithmetic_fallback.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/bls12_381/bls/arithmetic_fallback.go b/bls12_381/bls/arithmetic_fallback.go
index fc14959..9460fca 100644
--- a/bls12_381/bls/arithmetic_fallback.go
+++ b/bls12_381/bls/arithmetic_fallback.go
@@ -635,10 +635,13 @@ func madd2s(a, b, c, d, e uint64) (superhi, hi, lo uint64) {
 	hi, superhi = bits.Add64(hi, hi, carry)
 
 	sum, carry = bits.Add64(c, e, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
 	lo, carry = bits.Add64(lo, sum, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
-	hi, _ = bits.Add64(hi, 0, d)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
+	hi, carry = bits.Add64(hi, 0, d)
+	superhi += carry
 	return
 }
 
@@ -649,8 +652,10 @@ func madd1s(a, b, d, e uint64) (superhi, hi, lo uint64) {
 	lo, carry = bits.Add64(lo, lo, 0)
 	hi, superhi = bits.Add64(hi, hi, carry)
 	lo, carry = bits.Add64(lo, e, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
-	hi, _ = bits.Add64(hi, 0, d)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
+	hi, carry = bits.Add64(hi, 0, d)
+	superhi += carry
 	return
 }
 
@@ -662,9 +667,11 @@ func madd2sb(a, b, c, e uint64) (superhi, hi, lo uint64) {
 	hi, superhi = bits.Add64(hi, hi, carry)
 
 	sum, carry = bits.Add64(c, e, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
 	lo, carry = bits.Add64(lo, sum, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
 	return
 }
 
@@ -675,7 +682,8 @@ func madd1sb(a, b, e uint64) (superhi, hi, lo uint64) {
 	lo, carry = bits.Add64(lo, lo, 0)
 	hi, superhi = bits.Add64(hi, hi, carry)
 	lo, carry = bits.Add64(lo, e, 0)
-	hi, _ = bits.Add64(hi, 0, carry)
+	hi, carry = bits.Add64(hi, 0, carry)
+	superhi += carry
 	return
 }
 
-- 
2.43.0


From db48ef29af4a49885cb3da61953714f22ee1a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 44/52] fix: SM2 field multiplication loses a borrow when a
 limb to cancel is one

---
 sm2_std.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2_std.go b/sm2_std.go
index 41c9df9..e9e4636 100644
--- a/sm2_std.go
+++ b/sm2_std.go
@@ -819,7 +819,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x20000000 && x > 1 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= 1
 					tmp[i+8] -= x >> 4
@@ -833,7 +833,7 @@ func sm2_stdReduceDegree(a *sm2_stdFieldElement, b *sm2_stdLargeFieldElement) {
 				tmp[i+7] -= set7
 				tmp[i+7] -= (x << 24) & bottom28Bits
 				tmp[i+8] += (x << 28) & bottom29Bits
-				if tmp[i+8] < 0x20000000 {
+				if tmp[i+8] < 0x20000000 && x > 1 {
 					tmp[i+8] += 0x20000000 & xMask
 					tmp[i+8] -= x >> 4
 					tmp[i+9] += ((x >> 1) - 1) & xMask
-- 
2.43.0


From 67c4f4a79379025b4312a7d25e98001dd94d5734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:00 +0000
Subject: [PATCH 45/52] fix: Pasta compressed points hold x in one form

Compress stored x as an integer while Decompress and Compressed.FromBigEndianBytes
use its Montgomery form, so a compressed point did not decompress to itself.
---
 pasta/crypto.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pasta/crypto.go b/pasta/crypto.go
index 0c85294..0f0e0e7 100644
--- a/pasta/crypto.go
+++ b/pasta/crypto.go
@@ -128,7 +128,7 @@ func (c Compressed) ToBigEndianBytes() []byte {
 		out = append(out, 0x02)
 	}
 
-	return append(out, c.X.ToBigEndianBytes()...)
+	return append(out, FpMontgomeryArrayToBigEndianBytes(c.X.ToU64Array())...)
 }
 
 func (c *Compressed) FromBigEndianBytes(p []byte) error {
@@ -560,10 +560,9 @@ func GeneratePubkey(pub_key *Affine, priv_key Scalar) {
 }
 
 func Compress(compressed *Compressed, pt Affine) {
-	var out, y_bigint [4]uint64
-	FiatPastaFpFromMontgomery(&out, pt.X.ToU64Array())
+	var y_bigint [4]uint64
 	FiatPastaFpFromMontgomery(&y_bigint, pt.Y.ToU64Array())
-	compressed.X.Set(out)
+	compressed.X.Set(pt.X)
 	if y_bigint[0]&0x01 == 1 {
 		compressed.IsOdd = true
 	} else {
-- 
2.43.0


From e81d539e598bfc97a7c00fccb50e8bacb526c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:16 +0000
Subject: [PATCH 46/52] fix: Mina verification refuses a sum at infinity

---
 pasta/pasta.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pasta/pasta.go b/pasta/pasta.go
index 6540335..b5ea4ca 100644
--- a/pasta/pasta.go
+++ b/pasta/pasta.go
@@ -118,6 +118,9 @@ func Verify(publicKey, msg, sig []byte) bool {
 
 	var r Group
 	GroupAdd(&r, sg, neg_epub)
+	if IsZero(r) == 1 {
+		return false
+	}
 
 	var raff Affine
 	AffineFromGroup(&raff, r)
-- 
2.43.0


From d521b1c44b0f5a2b766dff6cbee4da57f5d835ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:08 +0000
Subject: [PATCH 47/52] fix: BLS12-381 field multiplication kept only one of
 two carries

---
 bls12_381/bls/arithmetic_x86.s | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bls12_381/bls/arithmetic_x86.s b/bls12_381/bls/arithmetic_x86.s
index 5ac4477..a92bc5e 100644
--- a/bls12_381/bls/arithmetic_x86.s
+++ b/bls12_381/bls/arithmetic_x86.s
@@ -2471,6 +2471,7 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R13
 	ADOXQ SI, R13
 	ADCXQ SI, SI
+	ADOXQ CX, SI
 
 /*	 | i = 1										*/
 
@@ -2508,6 +2509,7 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R14
 	ADOXQ SI, R14
 	ADCXQ CX, CX
+	ADOXQ DI, CX
 
 /*	 | i = 2										*/
 
@@ -2545,6 +2547,7 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ R9, R15
 	ADOXQ CX, R15
 	ADCXQ DI, DI
+	ADOXQ BX, DI
 
 /*	 | i = 3										*/
 
@@ -2582,6 +2585,7 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ BX, R8
 	ADOXQ DI, R8
 	ADCXQ CX, CX
+	ADOXQ R10, CX
 
 /*	 | i = 4										*/
 
@@ -2621,6 +2625,7 @@ TEXT ·mulADX(SB), NOSPLIT, $16-24
 	ADCXQ BX, R9
 	ADOXQ CX, R9
 	ADCXQ DI, DI
+	ADOXQ R11, DI
 
 /*	 | i = 5										*/
 
@@ -2937,6 +2942,7 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R13
 	ADOXQ SI, R13
 	ADCXQ SI, SI
+	ADOXQ CX, SI
 
 /*	 | i = 1									*/
 
@@ -2974,6 +2980,7 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R14
 	ADOXQ SI, R14
 	ADCXQ CX, CX
+	ADOXQ DI, CX
 
 /*	 | i = 2									*/
 
@@ -3011,6 +3018,7 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ R9, R15
 	ADOXQ CX, R15
 	ADCXQ DI, DI
+	ADOXQ BX, DI
 
 /*	 | i = 3									*/
 
@@ -3048,6 +3056,7 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ BX, R8
 	ADOXQ DI, R8
 	ADCXQ CX, CX
+	ADOXQ R10, CX
 
 /*	 | i = 4									*/
 
@@ -3087,6 +3096,7 @@ TEXT ·mulAssignADX(SB), NOSPLIT, $16-16
 	ADCXQ BX, R9
 	ADOXQ CX, R9
 	ADCXQ DI, DI
+	ADOXQ R11, DI
 
 /*	 | i = 5									*/
 
-- 
2.43.0


From 40a25983b50c3259f70f9a4681230f3302188d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:55 +0000
Subject: [PATCH 48/52] fix: multi-exponentiation covers every bit of the
 powers

---
 bls12_381/bls/g1.go | 5 +++++
 bls12_381/bls/g2.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/bls12_381/bls/g1.go b/bls12_381/bls/g1.go
index a064455..4f21af5 100644
--- a/bls12_381/bls/g1.go
+++ b/bls12_381/bls/g1.go
@@ -462,6 +462,11 @@ func (g *G1) MultiExp(r *PointG1, points []*PointG1, powers []*big.Int) (*PointG
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
 	}
 	bucketSize, numBits := (1<<c)-1, uint32(g.Q().BitLen())
+	for _, power := range powers {
+		if l := uint32(power.BitLen()); l > numBits {
+			numBits = l
+		}
+	}
 	windows := make([]*PointG1, numBits/c+1)
 	bucket := make([]*PointG1, bucketSize)
 	acc, sum := g.New(), g.New()
diff --git a/bls12_381/bls/g2.go b/bls12_381/bls/g2.go
index 5cd0e35..8e4880c 100644
--- a/bls12_381/bls/g2.go
+++ b/bls12_381/bls/g2.go
@@ -466,6 +466,11 @@ func (g *G2) MultiExp(r *PointG2, points []*PointG2, powers []*big.Int) (*PointG
 		c = uint32(math.Ceil(math.Log10(float64(len(powers)))))
 	}
 	bucketSize, numBits := (1<<c)-1, uint32(g.Q().BitLen())
+	for _, power := range powers {
+		if l := uint32(power.BitLen()); l > numBits {
+			numBits = l
+		}
+	}
 	windows := make([]*PointG2, numBits/c+1)
 	bucket := make([]*PointG2, bucketSize)
 	acc, sum := g.New(), g.New()
-- 
2.43.0


From f411b291b67cea65a51d878c59ffb058583d6d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:32 +0000
Subject: [PATCH 49/52] fix: CURVE25519_SHA256 accepts forgeries under the key
 of all zero bytes

The chain of double scalar multiplication divides by the x coordinates of P,
P+G and P-G. When one of them is 0 the result was 0 for every signature, so
that anybody could sign for the key 0; for P = G it was arbitrary.
---
 eddsa/curve25519_sha256.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/eddsa/curve25519_sha256.go b/eddsa/curve25519_sha256.go
index 7899675..00537d7 100644
--- a/eddsa/curve25519_sha256.go
+++ b/eddsa/curve25519_sha256.go
@@ -87,7 +87,9 @@ func CURVE25519_sha256_verify(pubkey, message,signature []byte) bool {
 	h := make([]byte, 32)
 	copy(h, signature[32:])
 
-	Verify(Y, v, h, pubkey)
+	if !Verify(Y, v, h, pubkey) {
+		return false
+	}
 
 	digest := sha256.New()
 	_, _ = digest.Write(message)
@@ -621,7 +623,15 @@ func Sign(v, h, x, s []byte) bool {
 	return w != 0
 }
 
-func Verify(Y, v, h, P []byte) {
+func isZero(x *long10) bool {
+	var b [32]byte
+	pack(x, b[:])
+	return b == [32]byte{}
+}
+
+// Verify reports whether Y could be computed: the addition chain divides by
+// the x coordinates of P, P+G and P-G, of which none may be 0 or infinite.
+func Verify(Y, v, h, P []byte) bool {
 	/* Y = v abs(P) + h G  */
 	d := make([]byte, 32)
 	p := [2]*long10{
@@ -684,6 +694,11 @@ func Verify(Y, v, h, P []byte) {
 	mulSmall(s[0], s[0], 1)    /* reduce s[0] */
 	mulSmall(s[1], s[1], 1)    /* reduce s[1] */
 
+	mulSmall(t2[0], p[1], 1)
+	if isZero(t2[0]) || isZero(t2[1]) || isZero(s[0]) || isZero(s[1]) {
+		return false
+	}
+
 	/* prepare the chain  */
 	for i := 0; i < 32; i++ {
 		vi = (vi >> 8) ^ int(v[i]) ^ (int(v[i]) << 1)
@@ -745,6 +760,7 @@ func Verify(Y, v, h, P []byte) {
 	mul(t1[1], yx[k], t1[0])
 
 	pack(t1[1], Y)
+	return true
 }
 
 func IsCanonicalSignature(v []byte) bool {
-- 
2.43.0


From c7d7c877213666ab1c602c1bdcb6788125c8c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:53 +0000
Subject: [PATCH 50/52] fix: the Pasta fiat functions that take their result
 array by value return nothing

---
 pasta/pasta_fp.go | 12 ++++++------
 pasta/pasta_fq.go | 14 +++++++-------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pasta/pasta_fp.go b/pasta/pasta_fp.go
index cc89fc4..eed9611 100644
--- a/pasta/pasta_fp.go
+++ b/pasta/pasta_fp.go
@@ -1170,7 +1170,7 @@ func FiatPastaFpNonZero(out1 *uint64, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpSelectZnz(out1 [4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]uint64) {
+func FiatPastaFpSelectZnz(out1 *[4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	FiatPastaFpCmovznzU64(&x1, arg1, arg2[0], arg3[0])
 	FiatPastaFpCmovznzU64(&x2, arg1, arg2[1], arg3[1])
@@ -1195,7 +1195,7 @@ func FiatPastaFpSelectZnz(out1 [4]uint64, arg1 FiatPastaFpUint1, arg2, arg3 [4]u
  * Output Bounds:
  *   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x7f]]
  */
-func FiatPastaFpToBytes(out1 [32]uint8, arg1 [4]uint64) {
+func FiatPastaFpToBytes(out1 *[32]uint8, arg1 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	var x5 uint8
 	var x6 uint64
@@ -1354,7 +1354,7 @@ func FiatPastaFpToBytes(out1 [32]uint8, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0x7fffffffffffffff]]
  */
-func FiatPastaFpFromBytes(out1 [4]uint64, arg1 [32]uint8) {
+func FiatPastaFpFromBytes(out1 *[4]uint64, arg1 [32]uint8) {
 	var x1, x2, x3, x4, x5, x6, x7 uint64
 	var x8 uint8
 	var x9, x10, x11, x12, x13, x14, x15 uint64
@@ -1457,7 +1457,7 @@ func FiatPastaFpSetOne(out1 *[4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpMSat(out1 [5]uint64) {
+func FiatPastaFpMSat(out1 *[5]uint64) {
 	out1[0] = uint64(0x992d30ed00000001)
 	out1[1] = uint64(0x224698fc094cf91b)
 	out1[2] = 0x0
@@ -1475,7 +1475,7 @@ func FiatPastaFpMSat(out1 [5]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpDivStepPreComp(out1 [4]uint64) {
+func FiatPastaFpDivStepPreComp(out1 *[4]uint64) {
 	out1[0] = uint64(0xeb9f9ebd71876582)
 	out1[1] = uint64(0x61d4a765274d339b)
 	out1[2] = uint64(0x4bf06d486f0671ed)
@@ -1511,7 +1511,7 @@ func FiatPastaFpDivStepPreComp(out1 [4]uint64) {
  *   out4: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  *   out5: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFpDivStep(out1 *uint64, out2, out3 [5]uint64, out4, out5 [4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
+func FiatPastaFpDivStep(out1 *uint64, out2, out3 *[5]uint64, out4, out5 *[4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
 	var x1 uint64
 	var x2, x3 FiatPastaFpUint1
 	var x4 uint64
diff --git a/pasta/pasta_fq.go b/pasta/pasta_fq.go
index 04c0a57..de4ae31 100644
--- a/pasta/pasta_fq.go
+++ b/pasta/pasta_fq.go
@@ -1166,7 +1166,7 @@ func FiatPastaFqNonZero(out1 *uint64, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqSelectZnz(out1 [4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]uint64) {
+func FiatPastaFqSelectZnz(out1 *[4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	FiatPastaFqCmovznzU64(&x1, arg1, arg2[0], arg3[0])
 	FiatPastaFqCmovznzU64(&x2, arg1, arg2[1], arg3[1])
@@ -1191,7 +1191,7 @@ func FiatPastaFqSelectZnz(out1 [4]uint64, arg1 FiatPastaFqUint1, arg2, arg3 [4]u
  * Output Bounds:
  *   out1: [[0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0xff], [0x0 ~> 0x7f]]
  */
-func FiatPastaFqToBytes(out1 [32]uint8, arg1 [4]uint64) {
+func FiatPastaFqToBytes(out1 *[32]uint8, arg1 [4]uint64) {
 	var x1, x2, x3, x4 uint64
 	var x5 uint8
 	var x6 uint64
@@ -1350,7 +1350,7 @@ func FiatPastaFqToBytes(out1 [32]uint8, arg1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0x7fffffffffffffff]]
  */
-func FiatPastaFqFromBytes(out1 [4]uint64, arg1 [32]uint8) {
+func FiatPastaFqFromBytes(out1 *[4]uint64, arg1 [32]uint8) {
 	var x1, x2, x3, x4, x5, x6, x7 uint64
 	var x8 uint8
 	var x9, x10, x11, x12, x13, x14, x15 uint64
@@ -1436,7 +1436,7 @@ func FiatPastaFqFromBytes(out1 [4]uint64, arg1 [32]uint8) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqSetOne(out1 [4]uint64) {
+func FiatPastaFqSetOne(out1 *[4]uint64) {
 	out1[0] = uint64(0x5b2b3e9cfffffffd)
 	out1[1] = uint64(0x992c350be3420567)
 	out1[2] = uint64(0xffffffffffffffff)
@@ -1453,7 +1453,7 @@ func FiatPastaFqSetOne(out1 [4]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqMSat(out1 [5]uint64) {
+func FiatPastaFqMSat(out1 *[5]uint64) {
 	out1[0] = uint64(0x8c46eb2100000001)
 	out1[1] = uint64(0x224698fc0994a8dd)
 	out1[2] = 0x0
@@ -1471,7 +1471,7 @@ func FiatPastaFqMSat(out1 [5]uint64) {
  * Output Bounds:
  *   out1: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqDivStepPreComp(out1 [4]uint64) {
+func FiatPastaFqDivStepPreComp(out1 *[4]uint64) {
 	out1[0] = uint64(0xe6083b32dccd2992)
 	out1[1] = uint64(0x624453584f3bdab6)
 	out1[2] = uint64(0xba6367a9c5d2c08e)
@@ -1507,7 +1507,7 @@ func FiatPastaFqDivStepPreComp(out1 [4]uint64) {
  *   out4: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  *   out5: [[0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff], [0x0 ~> 0xffffffffffffffff]]
  */
-func FiatPastaFqDivStep(out1 *uint64, out2, out3 [5]uint64, out4, out5 [4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
+func FiatPastaFqDivStep(out1 *uint64, out2, out3 *[5]uint64, out4, out5 *[4]uint64, arg1 uint64, arg2, arg3 [5]uint64, arg4, arg5 [4]uint64) {
 	var x1 uint64
 	var x2, x3 FiatPastaFqUint1
 	var x4 uint64
-- 
2.43.0


From 0b3b5efbb07b988c2d9ba084adfc37d4f618f529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:15 +0000
Subject: [PATCH 51/52] fix: picking a G2 point leaves the receiver as it is

---
 bls12_381/g2.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index c445d50..9ebcb16 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -44,7 +44,8 @@ func (k *OwcryptG2) Base() kyber.Point {
 func (k *OwcryptG2) Pick(rand cipher.Stream) kyber.Point {
 	var dst, src [32]byte
 	rand.XORKeyStream(dst[:], src[:])
-	return k.Hash(dst[:])
+	k.p, _ = bls.NewG2(nil).HashToCurve(dst[:], Domain)
+	return k
 }
 
 func (k *OwcryptG2) Set(q kyber.Point) kyber.Point {
-- 
2.43.0


From f55b038121599a8fb9632af870a1b9e3d17ce249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 52/52] fix: a G2 point describes itself as a G1 point

---
 bls12_381/g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bls12_381/g2.go b/bls12_381/g2.go
index 9ebcb16..7f363f5 100644
--- a/bls12_381/g2.go
+++ b/bls12_381/g2.go
@@ -132,7 +132,7 @@ func (k *OwcryptG2) MarshalSize() int {
 
 func (k *OwcryptG2) String() string {
 	b, _ := k.MarshalBinary()
-	return "bls12-381.G1: " + hex.EncodeToString(b)
+	return "bls12-381.G2: " + hex.EncodeToString(b)
 }
 
 const (
-- 
2.43.0

