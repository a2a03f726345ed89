From d121a90642cf2ff3bd67148cdf99b81fa1141f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:35 +0000
Subject: [PATCH 01/11] fix: csprng.Read must advance through the keystream

Every Read returned the keystream from position 0, xored into what the
destination held before: polynomial coefficients repeated between splits and
depended on earlier secrets left in pooled buffers, and the redraw loop of
GetUniqueBytes could run forever. Keep an atomic position and clear the
destination first.
---
 csprng/csprng.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 4a7f3ec..d058a3a 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -3,12 +3,14 @@ package csprng
 import (
 	"github.com/starius/aesctrat"
 	"math/rand"
+	"sync/atomic"
 	"time"
 )
 
 type CSPRNG struct {
-	c  *aesctrat.AesCtr
-	iv []byte
+	pos uint64 // position of the next unused keystream byte; first for 64-bit alignment
+	c   *aesctrat.AesCtr
+	iv  []byte
 }
 
 func init() {
@@ -19,16 +21,23 @@ func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
 	rand.Read(keyIv)
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{ctr, keyIv[16:]}
+	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
 
+// Read fills buff with the next len(buff) bytes of the keystream, whatever buff
+// held before. It is safe for concurrent use: no two reads get the same bytes.
 func (r *CSPRNG) Read(buff []byte) (int, error) {
-	r.c.XORKeyStreamAt(buff, buff, r.iv, 0)
+	n := uint64(len(buff))
+	start := atomic.AddUint64(&r.pos, n) - n
+	for i := range buff {
+		buff[i] = 0
+	}
+	r.c.XORKeyStreamAt(buff, buff, r.iv, start)
 	return len(buff), nil
 }
 
-- 
2.43.0


From a4cf01977019fb99720803ad8f7776bccf8c1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 02/11] fix: csprng.GetUniqueBytes must not return 255

SplitWithRandomizer uses byte+1 as the x coordinate, so 255 became x=0 and
that share was the secret itself. For n >= 20 the values already come from
Perm(255), which excludes 255.
---
 csprng/csprng.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index d058a3a..92c9b7c 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -69,7 +69,9 @@ func (r *CSPRNG) GetUniqueBytes(n byte) []byte {
 		return r.Perm(255)[:n]
 	}
 	buff := make([]byte, n)
-	isExist := map[byte]bool{}
+	// 255 is never returned: like Perm(255), the result is used as x = byte + 1
+	// and x must not wrap around to zero
+	isExist := map[byte]bool{255: true}
 	_, _ = r.Read(buff)
 	for i := byte(0); i < n; i++ {
 		isDuplicate := true
-- 
2.43.0


From 5867c17a2dab9f712dbe4cd2abd992820ce2e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:36 +0000
Subject: [PATCH 03/11] fix: csprng.Perm indexes out of range

j = 1 + r%(n-i) reaches n when i is 0, and n-2 wraps around for n < 2, so
Perm panicked for some random bytes and always for n = 0 and n = 1.
---
 csprng/csprng.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 92c9b7c..44fcdfd 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -50,8 +50,8 @@ func (r *CSPRNG) Perm(n byte) []byte {
 	}
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
-	for i := byte(0); i < n-2; i++ {
-		j := 1 + shuffler[i] % (n-i)
+	for i := byte(0); i+1 < n; i++ {
+		j := i + shuffler[i]%(n-i)
 		temp := buff[i]
 		buff[i] = buff[j]
 		buff[j] = temp
-- 
2.43.0


From e03bed792a00527bec488e9612bec85946070f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 04/11] fix: NewCSPRNGWithKeyIV must not keep the caller's
 slice

The IV was used in place, so the keystream changed, and repeated, when the
caller wiped or reused its key material.
---
 csprng/csprng.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 44fcdfd..50a96b3 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -26,7 +26,9 @@ func NewCSPRNG() *CSPRNG {
 
 func NewCSPRNGWithKeyIV(keyIv []byte) *CSPRNG {
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
-	return &CSPRNG{c: ctr, iv: keyIv[16:]}
+	// the caller keeps keyIv and may reuse or wipe it
+	iv := append([]byte(nil), keyIv[16:]...)
+	return &CSPRNG{c: ctr, iv: iv}
 }
 
 // Read fills buff with the next len(buff) bytes of the keystream, whatever buff
-- 
2.43.0


From fcb453721e69ace5e7d52543b0471a1cc2a69809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:37 +0000
Subject: [PATCH 05/11] fix: randomizer.Perm does not return a permutation

Values were copied instead of swapped, so some appeared twice and others were
lost, and the loop bound wrapped around for n = 0.
---
 randomizer/randomizer.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 0247e73..4acb8b1 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -34,10 +34,9 @@ func (r *Randomizer) Perm(n byte) []byte {
 	shuffler := make([]byte, n)
 	_, _ = r.Read(shuffler)
 	max := n-1
-	for i := byte(0); i < n-1; i++ {
-		rx := shuffler[i]%max
-		temp := buff[rx]
-		buff[max] = temp
+	for i := byte(0); i+1 < n; i++ {
+		rx := shuffler[i]%(max+1)
+		buff[rx], buff[max] = buff[max], buff[rx]
 		max--
 	}
 	return buff
-- 
2.43.0


From 2f5728ee56eb982a09df7f32e494baa1df45006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 06/11] fix: appending to a share must not overwrite the next
 one

The shares of Split, SplitWithRandomizer and SplitWithRandomizerOld were
slices of one buffer with spare capacity. Limit their capacity, as newMatrix
does.
---
 shamir/shamir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index 8b3a99c..b0a7ab4 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -60,7 +60,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -137,7 +137,7 @@ func SplitWithRandomizerOld(secret []byte, parts, threshold int, randomizer *csp
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
@@ -192,7 +192,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	for idx := range out {
 		s := (len(secret)+1)*idx
 		e := s + len(secret)+1
-		out[idx] = buff[s:e]
+		out[idx] = buff[s:e:e]
 		out[idx][len(secret)] = uint8(xCoordinates[idx]) + 1
 	}
 
-- 
2.43.0


From c2c218141b694384b3a15d3f59c63e386b9e9fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 07/11] fix: SSMS Split panics for some secret lengths

encoder.Split pads with the spare capacity of its argument and indexes out of
range when that capacity holds all shards but not threshold more bytes, which
depends on how the buffer of the ciphertext happened to grow (for example a
9-byte secret in 33-of-33 shares). Hand it a copy with enough zeroed capacity.
---
 krawczyk/krawczyk.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index 44b90bc..c8f6c3d 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -53,7 +53,7 @@ func Split(secret []byte, parts, threshold int) ([][]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	encodedSecret, err := encoder.Split(withSpareCapacity(encryptedSecret, threshold))
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -124,7 +124,7 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	if err != nil {
 		return nil, fmt.Errorf("failed to initialize reed-solomon encoder: %v", err)
 	}
-	encodedSecret, err := encoder.Split(encryptedSecret)
+	encodedSecret, err := encoder.Split(withSpareCapacity(encryptedSecret, threshold))
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode the secret: %v", err)
 	}
@@ -160,6 +160,15 @@ func SplitWithRandomizer(secret []byte, parts, threshold int, randomizer *csprng
 	return results, nil
 }
 
+// withSpareCapacity returns a copy of data with room for extra zero bytes.
+// encoder.Split uses the capacity of its argument as padding, and fails for
+// some capacities that hold the padding but not all of the parity shards.
+func withSpareCapacity(data []byte, extra int) []byte {
+	buff := make([]byte, len(data), len(data)+extra)
+	copy(buff, data)
+	return buff
+}
+
 func newByteMatrix(r, c int) [][]byte {
 	a := make([]uint8, r*c)
 	m := make([][]uint8, r)
-- 
2.43.0


From ed0286ebc1c7b794d67df01e83aee8da63114477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:38 +0000
Subject: [PATCH 08/11] fix: SSMS Combine panics on damaged or missing shares

An empty list, a share too short to hold the metadata and the part-id, a
part-id equal to the number of parts, and negative parameters made Combine
index out of range. Return an error as for the other invalid inputs.
---
 krawczyk/krawczyk.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index c8f6c3d..f87b644 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -181,12 +181,15 @@ func newByteMatrix(r, c int) [][]byte {
 }
 
 func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
+	if len(ssData) == 0 {
+		return nil, errors.New("no secret-shared data is given")
+	}
 	if len(ssData[0]) > math.MaxUint32 {
 		return nil, fmt.Errorf(
 			"the provided secret is too large, we can only combine up to %d bytes data", math.MaxUint32)
 	}
-	if threshold == 0 || parts == 0 {
-		return nil, errors.New("#parts and #threshold can not be zero")
+	if threshold <= 0 || parts <= 0 {
+		return nil, errors.New("#parts and #threshold should be positive")
 	}
 	if threshold > parts {
 		return nil, fmt.Errorf(
@@ -222,11 +225,15 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 	encodedData := make([][]byte, parts)
 	ssMetadata := make([][]byte, len(ssData))
 	for i := 0; i < len(ssData); i++ {
+		// metadata, at least one byte of encoded data and the part-id
+		if len(ssData[i]) < secretStartIdx+2 {
+			return nil, errors.New("the given secret-shared data is too short")
+		}
 		ssMetadata[i] = ssData[i][:secretStartIdx]
 
 		// check the part-id of the reed-solomon encoded data
 		partID := ssData[i][len(ssData[i])-1]
-		if partID > byte(parts) {
+		if int(partID) >= parts {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
 		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
-- 
2.43.0


From cf5348fba330e23e73e5841fd32c32319aa18058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 09/11] fix: Regenerate must return new, distinct and non-zero
 points

The redrawn x was dropped, so a new share could duplicate a given one or
another new one, or be the secret itself (x=0). With more new shares than
unused points the redraw never ended, and a negative number panicked.
---
 shamir/shamir.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/shamir/shamir.go b/shamir/shamir.go
index b0a7ab4..0b947f0 100644
--- a/shamir/shamir.go
+++ b/shamir/shamir.go
@@ -438,6 +438,10 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		}
 	}
 
+	if numNewShares < 0 || numNewShares > 255 {
+		return nil, fmt.Errorf("the number of new shares must be between 0 and 255")
+	}
+
 	// TODO: make a more efficient version of this by allocating less memory
 	// Create buffer to store the new shares
 	newShares := make([][]byte, numNewShares)
@@ -456,18 +460,22 @@ func Regenerate(parts [][]byte, numNewShares int) ([][]byte, error) {
 		checkMap[samp] = true
 	}
 
+	// x=0 is the secret itself
+	checkMap[0] = true
+	if numNewShares > 256-len(checkMap) {
+		return nil, fmt.Errorf("not enough unused x to regenerate %d new shares", numNewShares)
+	}
+
 	// generate new random x
 	if _, err := rand.Read(newXs); err != nil {
 		return nil, fmt.Errorf("failed to generate new random x: %v", err)
 	}
 	// ensure no duplicate x generated
-	for _, nx := range newXs {
-		exists := checkMap[nx]
-		for exists {
-			nx = byte(rand.Uint32())
-			exists = checkMap[nx]
+	for i := range newXs {
+		for checkMap[newXs[i]] {
+			newXs[i] = byte(rand.Uint32())
 		}
-		checkMap[nx] = true
+		checkMap[newXs[i]] = true
 	}
 
 	for i, share := range parts {
-- 
2.43.0


From 82a5790f867e3a6648b66eb2ac35c0a11bad86af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 10/11] fix: take secret-dependent randomness from crypto/rand

Coefficients, SSMS keys and the generators' key and IV came from math/rand,
seeded with the clock: two processes started at the same instant used the same
values, and whoever knows the approximate time of the start can predict them.
The public x coordinates still come from math/rand.
---
 csprng/csprng.go         | 5 ++++-
 krawczyk/krawczyk.go     | 2 +-
 randomizer/randomizer.go | 6 ++++--
 shamir/polynomial.go     | 6 ++++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/csprng/csprng.go b/csprng/csprng.go
index 50a96b3..8eaf2d7 100644
--- a/csprng/csprng.go
+++ b/csprng/csprng.go
@@ -1,6 +1,7 @@
 package csprng
 
 import (
+	crand "crypto/rand"
 	"github.com/starius/aesctrat"
 	"math/rand"
 	"sync/atomic"
@@ -19,7 +20,9 @@ func init() {
 
 func NewCSPRNG() *CSPRNG {
 	keyIv := make([]byte, 32)
-	rand.Read(keyIv)
+	if _, err := crand.Read(keyIv); err != nil {
+		panic(err)
+	}
 	ctr := aesctrat.NewAesCtr(keyIv[:16])
 	return &CSPRNG{c: ctr, iv: keyIv[16:]}
 }
diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index f87b644..ea628e5 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -2,6 +2,7 @@ package krawczyk
 
 import (
 	"bytes"
+	"crypto/rand"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -9,7 +10,6 @@ import (
 	"github.com/fadhilkurnia/shamir/shamir"
 	"github.com/klauspost/reedsolomon"
 	"math"
-	"math/rand"
 )
 
 // key size: 16 bytes (128 bit)
diff --git a/randomizer/randomizer.go b/randomizer/randomizer.go
index 4acb8b1..c661669 100644
--- a/randomizer/randomizer.go
+++ b/randomizer/randomizer.go
@@ -3,7 +3,7 @@ package randomizer
 import (
 	"crypto/aes"
 	"crypto/cipher"
-	"math/rand"
+	"crypto/rand"
 )
 
 type Randomizer struct {
@@ -12,7 +12,9 @@ type Randomizer struct {
 
 func NewRandomizer() *Randomizer {
 	keyAndIV := make([]byte, 16 + aes.BlockSize)
-	rand.Read(keyAndIV)
+	if _, err := rand.Read(keyAndIV); err != nil {
+		panic(err)
+	}
 	c, err := aes.NewCipher(keyAndIV[:16])
 	if err != nil {
 		panic(err)
diff --git a/shamir/polynomial.go b/shamir/polynomial.go
index 35bea5d..dde6cb1 100644
--- a/shamir/polynomial.go
+++ b/shamir/polynomial.go
@@ -1,11 +1,11 @@
 package shamir
 
 import (
+	"crypto/rand"
 	"crypto/subtle"
 	"github.com/fadhilkurnia/shamir/csprng"
 	gf "github.com/fadhilkurnia/shamir/galois"
 	"github.com/fadhilkurnia/shamir/utils"
-	"math/rand"
 )
 
 var polynomialBufferPool *utils.BytesBufferPool
@@ -18,7 +18,9 @@ func makePolynomialsWithBuff(intercepts []uint8, degree int, buffer []uint8) ([]
 	N := len(intercepts)
 
 	// assign random coefficients for all the N polynomials
-	_, _ = rand.Read(buffer)
+	if _, err := rand.Read(buffer); err != nil {
+		return nil, err
+	}
 
 	for p := 0; p < N; p++ {
 		s := (degree+1)*p
-- 
2.43.0


From 8330fec941eab12f0c6dd61cb8ad1e06b3890cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 11/11] fix: SSMS Combine must report two shares with the same
 part-id

The last of them silently replaced the others, so a damaged list of shares,
even one with shares of different lengths, was accepted.
---
 krawczyk/krawczyk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/krawczyk/krawczyk.go b/krawczyk/krawczyk.go
index ea628e5..be6b59e 100644
--- a/krawczyk/krawczyk.go
+++ b/krawczyk/krawczyk.go
@@ -236,7 +236,10 @@ func Combine(ssData [][]byte, parts, threshold int) ([]byte, error) {
 		if int(partID) >= parts {
 			return nil, errors.New("the given secret-shared data is wrong, part-id should be less than the number of parts")
 		}
-		encodedData[ssData[i][len(ssData[i])-1]] = ssData[i][secretStartIdx : len(ssData[i])-1]
+		if encodedData[partID] != nil {
+			return nil, errors.New("the given secret-shared data is wrong, duplicate part-id detected")
+		}
+		encodedData[partID] = ssData[i][secretStartIdx : len(ssData[i])-1]
 	}
 
 	// get the metadata
-- 
2.43.0

