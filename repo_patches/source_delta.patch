From 1ffef6d79c79196ba2643d0e276cf4c66787d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 01/57] fix: hashtree builder returns an error on an empty list
 of blocks instead of panicking

---
 domain/hashtree/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/domain/hashtree/builder.go b/domain/hashtree/builder.go
index ab7d450..4cff5d1 100644
--- a/domain/hashtree/builder.go
+++ b/domain/hashtree/builder.go
@@ -31,6 +31,10 @@ func (app *builder) WithBlocks(blocks [][]byte) Builder {
 
 // Now builds a new HashTree instance
 func (app *builder) Now() (HashTree, error) {
+	if app.blocks != nil && len(app.blocks) <= 0 {
+		app.blocks = nil
+	}
+
 	if app.blocks != nil {
 		return createHashTreeFromBlocks(app.blocks)
 	}
-- 
2.43.0


From e4fdf65123b3d217e016dd42751e6e342257c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 02/57] fix: hashtree padding no longer writes in the spare
 capacity of the caller's blocks

---
 domain/hashtree/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 0d7bde0..6c9a088 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -14,7 +14,7 @@ type block struct {
 func createBlockFromData(data [][]byte) (Block, error) {
 
 	if len(data) <= 1 {
-		data = append(data, []byte(""))
+		data = append(append([][]byte{}, data...), []byte(""))
 	}
 
 	hashes := []hash.Hash{}
-- 
2.43.0


From 431bfb132b1f571fc1a25e42a3ad8a876ac8d947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:25 +0000
Subject: [PATCH 03/57] fix: hashtree Order consumes every data block once, so
 that it neither duplicates a block nor hides a foreign one

---
 domain/hashtree/hashtree.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/domain/hashtree/hashtree.go b/domain/hashtree/hashtree.go
index e47aede..b228fbb 100644
--- a/domain/hashtree/hashtree.go
+++ b/domain/hashtree/hashtree.go
@@ -62,7 +62,7 @@ func (obj *hashtree) Compact() Compact {
 // Order orders data that matches the leafs of the HashTree
 func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
 	hashAdapter := hash.NewAdapter()
-	hashed := map[string][]byte{}
+	hashed := map[string][][]byte{}
 	for _, oneData := range data {
 		hsh, err := hashAdapter.FromBytes(oneData)
 		if err != nil {
@@ -70,15 +70,16 @@ func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
 		}
 
 		hashAsString := hsh.String()
-		hashed[hashAsString] = oneData
+		hashed[hashAsString] = append(hashed[hashAsString], oneData)
 	}
 
 	out := [][]byte{}
 	leaves := obj.parentLeaf.BlockLeaves().Leaves()
 	for _, oneLeaf := range leaves {
 		leafHashAsString := oneLeaf.Head().String()
-		if oneData, ok := hashed[leafHashAsString]; ok {
-			out = append(out, oneData)
+		if matches := hashed[leafHashAsString]; len(matches) > 0 {
+			out = append(out, matches[0])
+			hashed[leafHashAsString] = matches[1:]
 			continue
 		}
 
-- 
2.43.0


From c444767772bf09c934264c3d6e1494b3da86c91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 04/57] fix: ring signature without members or with a scalar
 missing no longer verifies (or panics)

---
 domain/cryptography/keys/signature/ringsignature.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/cryptography/keys/signature/ringsignature.go b/domain/cryptography/keys/signature/ringsignature.go
index 1ca0874..94717ed 100644
--- a/domain/cryptography/keys/signature/ringsignature.go
+++ b/domain/cryptography/keys/signature/ringsignature.go
@@ -30,6 +30,11 @@ func (app *ringSignature) Ring() []PublicKey {
 
 // Verify verifies if the message has been signed by at least 1 shared signature
 func (app *ringSignature) Verify(msg string) bool {
+	// a ring without members, or without exactly one scalar per member, proves nothing:
+	if len(app.ring) <= 0 || len(app.s) != len(app.ring) {
+		return false
+	}
+
 	// random base:
 	g := curve.Point().Base()
 
-- 
2.43.0


From f0e0cf5f0a85e61cdcf9bcae3c7a52dcf41acc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 05/57] fix: signatures take a fresh random nonce, so that
 signing the same message twice no longer discloses the private key

---
 domain/cryptography/keys/signature/helper.go     | 4 ++--
 domain/cryptography/keys/signature/privatekey.go | 7 +++----
 domain/cryptography/keys/signature/sdk.go        | 1 -
 3 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index 8de7896..1a7a691 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -15,8 +15,8 @@ func createHash(msg string) kyber.Scalar {
 	return curve.Scalar().SetBytes(sha256.Sum(nil))
 }
 
-func genK(x kyber.Scalar, msg string) kyber.Scalar {
-	return createHash(msg + x.String())
+func genK() kyber.Scalar {
+	return curve.Scalar().Pick(curve.RandomStream())
 }
 
 func fromStringToScalar(str string) (kyber.Scalar, error) {
diff --git a/domain/cryptography/keys/signature/privatekey.go b/domain/cryptography/keys/signature/privatekey.go
index 1546d25..1b1d90c 100644
--- a/domain/cryptography/keys/signature/privatekey.go
+++ b/domain/cryptography/keys/signature/privatekey.go
@@ -2,7 +2,6 @@ package signature
 
 import (
 	"errors"
-	"fmt"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -46,7 +45,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	}
 
 	// generate k:
-	k := genK(app.x, msg)
+	k := genK()
 
 	// random base:
 	g := curve.Point().Base()
@@ -65,7 +64,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	// loop:
 	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
 		// si = random value
-		ss[i] = genK(app.x, fmt.Sprintf("%s%d", msg, i))
+		ss[i] = genK()
 
 		//eiPlus1ModR = H(m || si * G + ei * Pi)
 		sig := curve.Point().Mul(ss[i], g)
@@ -84,7 +83,7 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 // Sign signs a message
 func (app *privateKey) Sign(msg string) (Signature, error) {
 	// generate k:
-	k := genK(app.x, msg)
+	k := genK()
 
 	// random base:
 	g := curve.Point().Base()
diff --git a/domain/cryptography/keys/signature/sdk.go b/domain/cryptography/keys/signature/sdk.go
index 71d2531..8c3a764 100644
--- a/domain/cryptography/keys/signature/sdk.go
+++ b/domain/cryptography/keys/signature/sdk.go
@@ -12,7 +12,6 @@ import (
  * e = H(m || k * G)
  * k = s + e * x
  * s = k – e * x
- * k = H(m || x) -> to generate a new k, since nobody but us knows x
  * where ...
  * 1. H is a hash function, for instance SHA256.
  * 2. s and e are 2 numbers forming the ring signature
-- 
2.43.0


From a7b93ed160bee5e8da6c0d712c33ccbafbea311c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 06/57] fix: the hash of a receipt and of a private transaction
 commits to its content instead of being a constant

---
 domain/receipts/builder.go                      | 5 ++++-
 domain/transactions/privates/private_builder.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/domain/receipts/builder.go b/domain/receipts/builder.go
index 75ce327..e1a55a9 100644
--- a/domain/receipts/builder.go
+++ b/domain/receipts/builder.go
@@ -53,7 +53,10 @@ func (app *builder) Now() (Receipt, error) {
 		return nil, errors.New("the signature is mandatory in order to build a Receipt instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.secret.Hash().Bytes(),
+		[]byte(app.sig.String()),
+	})
 	if err != nil {
 		return nil, err
 	}
diff --git a/domain/transactions/privates/private_builder.go b/domain/transactions/privates/private_builder.go
index 910ce8b..325a30e 100644
--- a/domain/transactions/privates/private_builder.go
+++ b/domain/transactions/privates/private_builder.go
@@ -53,7 +53,10 @@ func (app *privateBuilder) Now() (Private, error) {
 		return nil, errors.New("the receipt is mandatory in order to build a Private instance")
 	}
 
-	hash, err := app.hashAdapter.FromMultiBytes([][]byte{})
+	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
+		app.receipt.Hash().Bytes(),
+		[]byte(app.pk.String()),
+	})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b5e2b2b2311dbc42403769cd0c23bb1a77e319fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:57 +0000
Subject: [PATCH 07/57] fix: the hash of a secret and of a genesis unit no
 longer lets an amount run into its nonce

---
 domain/genesis/sdk.go                         | 2 ++
 domain/genesis/unitcontent_builder.go         | 5 ++++-
 domain/transactions/secrets/sdk.go            | 4 ++++
 domain/transactions/secrets/secret_builder.go | 8 +++++---
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/domain/genesis/sdk.go b/domain/genesis/sdk.go
index aec270e..2d81952 100644
--- a/domain/genesis/sdk.go
+++ b/domain/genesis/sdk.go
@@ -7,6 +7,8 @@ import (
 	"github.com/steve-care-software/steve/domain/rings"
 )
 
+const hashDelimiter = "|"
+
 // NewBuilder creates a new builder
 func NewBuilder() Builder {
 	hashAdapter := hash.NewAdapter()
diff --git a/domain/genesis/unitcontent_builder.go b/domain/genesis/unitcontent_builder.go
index 94f38ae..dac6c9f 100644
--- a/domain/genesis/unitcontent_builder.go
+++ b/domain/genesis/unitcontent_builder.go
@@ -85,9 +85,12 @@ func (app *unitContentBuilder) Now() (UnitContent, error) {
 
 	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
 		[]byte(strconv.Itoa(int(app.amount))),
-		[]byte(app.nonce),
+		[]byte(hashDelimiter),
 		[]byte(strconv.Itoa(int(app.activatedOn.UTC().UnixNano()))),
+		[]byte(hashDelimiter),
 		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
+		[]byte(hashDelimiter),
+		[]byte(app.nonce),
 	})
 
 	if err != nil {
diff --git a/domain/transactions/secrets/sdk.go b/domain/transactions/secrets/sdk.go
index 230c9b2..d27fbf2 100644
--- a/domain/transactions/secrets/sdk.go
+++ b/domain/transactions/secrets/sdk.go
@@ -5,6 +5,10 @@ import (
 	"github.com/steve-care-software/steve/domain/transactions"
 )
 
+const originDelimiter = "o"
+const sidesDelimiter = "s"
+const nonceDelimiter = "n"
+
 // NewBuilder creates a new builder instance
 func NewBuilder() Builder {
 	hashAdapter := hash.NewAdapter()
diff --git a/domain/transactions/secrets/secret_builder.go b/domain/transactions/secrets/secret_builder.go
index 2066e88..d14263f 100644
--- a/domain/transactions/secrets/secret_builder.go
+++ b/domain/transactions/secrets/secret_builder.go
@@ -84,17 +84,19 @@ func (app *secretBuilder) Now() (Secret, error) {
 	data := [][]byte{
 		app.public.Hash().Bytes(),
 		[]byte(strconv.Itoa(int(app.amount))),
-		[]byte(app.nonce),
 	}
 
+	// every optional or variable length field is introduced by its own delimiter, so that 2 secrets never share their hash:
 	if app.origin != nil {
-		data = append(data, app.origin.Hash().Bytes())
+		data = append(data, []byte(originDelimiter), app.origin.Hash().Bytes())
 	}
 
 	if app.sides != nil {
-		data = append(data, app.sides.Hash().Bytes())
+		data = append(data, []byte(sidesDelimiter), app.sides.Hash().Bytes())
 	}
 
+	data = append(data, []byte(nonceDelimiter), []byte(app.nonce))
+
 	hash, err := app.hashAdapter.FromMultiBytes(data)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b9f79e572f848887021d2d873b4e128b3dc042b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 08/57] fix: genesis exposes its units builder, without which
 no genesis can be built

---
 domain/genesis/sdk.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain/genesis/sdk.go b/domain/genesis/sdk.go
index 2d81952..3e293ac 100644
--- a/domain/genesis/sdk.go
+++ b/domain/genesis/sdk.go
@@ -15,6 +15,12 @@ func NewBuilder() Builder {
 	return createBuilder(hashAdapter)
 }
 
+// NewUnitsBuilder creates a new units builder
+func NewUnitsBuilder() UnitsBuilder {
+	hashAdapter := hash.NewAdapter()
+	return createUnitsBuilder(hashAdapter)
+}
+
 // NewUnitBuilder creates a new unit builder
 func NewUnitBuilder() UnitBuilder {
 	hashAdapter := hash.NewAdapter()
-- 
2.43.0


From 285db215f9592cd57e9b407e85cdb35ad42ed9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:08 +0000
Subject: [PATCH 09/57] fix: a peer string with a negative port is refused
 instead of becoming a huge port

---
 domain/peers/peer_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/peers/peer_builder.go b/domain/peers/peer_builder.go
index 78b1c4c..4663808 100644
--- a/domain/peers/peer_builder.go
+++ b/domain/peers/peer_builder.go
@@ -61,7 +61,7 @@ func (app *peerBuilder) Now() (Peer, error) {
 			return nil, errors.New(str)
 		}
 
-		portInt, err := strconv.Atoi(sections[1])
+		portInt, err := strconv.ParseUint(sections[1], 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 8d9884bf95ef6277444972b8f739ecb00b6ceab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 10/57] fix: the text of a signature is refused when its scalar
 is not canonical, so that nobody but its signer can rewrite it

---
 domain/cryptography/keys/signature/helper.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index 1a7a691..23f3695 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -3,6 +3,8 @@ package signature
 import (
 	"bytes"
 	"encoding/hex"
+	"errors"
+	"fmt"
 
 	kyber "go.dedis.ch/kyber/v3"
 )
@@ -25,13 +27,18 @@ func fromStringToScalar(str string) (kyber.Scalar, error) {
 		return nil, decodedErr
 	}
 
-	x := curve.Scalar()
-	reader := bytes.NewReader(decoded)
-	_, err := x.UnmarshalFrom(reader)
+	// only 1 text represents a scalar, otherwise a third party could rewrite a valid signature:
+	x := curve.Scalar().SetBytes(decoded)
+	encoded, err := x.MarshalBinary()
 	if err != nil {
 		return nil, err
 	}
 
+	if !bytes.Equal(encoded, decoded) {
+		str := fmt.Sprintf("the string (%s) does not contain the canonical representation of a scalar", str)
+		return nil, errors.New(str)
+	}
+
 	return x, nil
 }
 
-- 
2.43.0


From 24bb26bb4b01e18efa293c92536d24253ae91bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 11/57] fix: cardinality texts with a negative number or a
 maximum below the minimum are refused, surrounding spaces do not matter, and
 a mandatory cardinality has a text

---
 domain/languages/lexers/cardinality/adapter.go         |  5 +++++
 domain/languages/lexers/cardinality/range_builder.go   | 10 ++++++++++
 .../languages/lexers/cardinality/specific_adapter.go   | 10 +++++-----
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/domain/languages/lexers/cardinality/adapter.go b/domain/languages/lexers/cardinality/adapter.go
index 896bfe5..4a48e4c 100644
--- a/domain/languages/lexers/cardinality/adapter.go
+++ b/domain/languages/lexers/cardinality/adapter.go
@@ -68,6 +68,11 @@ func (app *adapter) ToPatternString(cardinality Cardinality) (string, error) {
 		return app.multipleCharacter, nil
 	}
 
+	if cardinality.IsMandatory() {
+		amount, _ := cardinality.Delimiter()
+		return app.specificAdapter.ToPatternString(createSpecificWithAmount(&amount))
+	}
+
 	specific := cardinality.Specific()
 	return app.specificAdapter.ToPatternString(specific)
 }
diff --git a/domain/languages/lexers/cardinality/range_builder.go b/domain/languages/lexers/cardinality/range_builder.go
index 2d7beaf..4e3b9c8 100644
--- a/domain/languages/lexers/cardinality/range_builder.go
+++ b/domain/languages/lexers/cardinality/range_builder.go
@@ -1,5 +1,10 @@
 package cardinality
 
+import (
+	"errors"
+	"fmt"
+)
+
 type rangeBuilder struct {
 	min uint
 	max *uint
@@ -34,6 +39,11 @@ func (app *rangeBuilder) WithMaximum(max uint) RangeBuilder {
 // Now builds a new Range instance
 func (app *rangeBuilder) Now() (Range, error) {
 	if app.max != nil {
+		if *app.max < app.min {
+			str := fmt.Sprintf("the maximum (%d) cannot be smaller than the minimum (%d) in order to build a Range instance", *app.max, app.min)
+			return nil, errors.New(str)
+		}
+
 		return createRangeWithMaximum(app.min, app.max), nil
 	}
 
diff --git a/domain/languages/lexers/cardinality/specific_adapter.go b/domain/languages/lexers/cardinality/specific_adapter.go
index 05e6421..5c7cee7 100644
--- a/domain/languages/lexers/cardinality/specific_adapter.go
+++ b/domain/languages/lexers/cardinality/specific_adapter.go
@@ -38,18 +38,18 @@ func createSpecificAdapter(
 // ToSpecific converts content to a specific cardinality
 func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	trimmedContent := strings.TrimSpace(content)
-	if strings.HasPrefix(content, app.prefix) {
+	if strings.HasPrefix(trimmedContent, app.prefix) {
 		trimmedContent = trimmedContent[1:]
 	}
 
-	if strings.HasSuffix(content, app.suffix) {
+	if strings.HasSuffix(trimmedContent, app.suffix) {
 		trimmedContent = trimmedContent[:len(trimmedContent)-1]
 	}
 
 	builder := app.specificBuilder.Create()
 	sections := strings.Split(trimmedContent, app.rangeSeparator)
 	if len(sections) == 1 {
-		amount, err := strconv.Atoi(sections[0])
+		amount, err := strconv.ParseUint(strings.TrimSpace(sections[0]), 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -58,7 +58,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 	}
 
 	if len(sections) == 2 {
-		min, err := strconv.Atoi(sections[0])
+		min, err := strconv.ParseUint(strings.TrimSpace(sections[0]), 10, strconv.IntSize)
 		if err != nil {
 			return nil, err
 		}
@@ -66,7 +66,7 @@ func (app *specificAdapter) ToSpecific(content string) (Specific, error) {
 		rangeBuilder := app.rangeBuilder.Create().WithMinimum(uint(min))
 		trimmedSection := strings.TrimSpace(sections[1])
 		if trimmedSection != "" {
-			max, err := strconv.Atoi(trimmedSection)
+			max, err := strconv.ParseUint(trimmedSection, 10, strconv.IntSize)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From 4dbadae0cc18384c02b302ddc325b18bfaf70982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:54 +0000
Subject: [PATCH 12/57] fix: the remaining content of a group match starts
 after the match, also when it is not at the beginning

---
 domain/languages/lexers/containers/patterns/adapter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4058980..148fe17 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -131,8 +131,9 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 		}
 
 		builder := app.resultBuilder.Create().WithDiscoveries(discoveries).WithInput(content)
-		if matchedAmount < uint(len(content)) {
-			builder.WithRemaining(content[matchedAmount:])
+		remaining := content[i+int(matchedAmount):]
+		if remaining != "" {
+			builder.WithRemaining(remaining)
 		}
 
 		ins, err := builder.Now()
-- 
2.43.0


From 6ff76fe5aa477e4888552318a5f86c004db42928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:13 +0000
Subject: [PATCH 13/57] fix: a reversed serie stops where the whole serie
 begins, and may be empty inside a pattern

---
 .../lexers/containers/patterns/adapter.go     | 56 +++++++++----------
 1 file changed, 26 insertions(+), 30 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 148fe17..36c6c20 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -104,7 +104,7 @@ func (app *adapter) FromGroupToResult(group Group, content string) (Result, erro
 	amount := len(content)
 	for i := 0; i < amount; i++ {
 		subContent := content[i:]
-		matchedAmount, err := app.matchesGroup(group, subContent, false)
+		matchedAmount, err := app.matchesGroup(group, subContent)
 		if err != nil {
 			return nil, err
 		}
@@ -199,9 +199,9 @@ func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint
 	remaining := content
 	discoveriesList := []Discovery{}
 	choices := pattern.Content().List()
-	for idx, oneChoice := range choices {
+	for _, oneChoice := range choices {
 		currentIndex := uint(0)
-		if idx <= 0 {
+		if len(discoveriesList) <= 0 {
 			currentIndex = nextIndex
 		}
 
@@ -277,7 +277,7 @@ func (app *adapter) matchSerie(serie Serie, content string, index uint) (bool, [
 			return false, matchedDiscoveriesList, oneGroup, "", nil
 		}
 
-		amount, err := app.matchesGroup(oneGroup, remaining, false)
+		amount, err := app.matchesGroup(oneGroup, remaining)
 		if err != nil {
 			return false, nil, nil, "", err
 		}
@@ -306,13 +306,9 @@ func (app *adapter) matchSerie(serie Serie, content string, index uint) (bool, [
 
 func (app *adapter) matchReversedSerie(serie Serie, content string, index uint) (bool, []Discovery, Group, string, error) {
 	groups := serie.Content().List()
-	amount, err := app.matchesGroup(groups[0], content, true)
-	if err != nil {
-		return false, nil, nil, "", err
-	}
-
+	amount := app.lengthBeforeSerie(groups, content)
 	if amount <= 0 {
-		return false, nil, nil, "", nil
+		return true, nil, nil, content, nil
 	}
 
 	container, err := app.containerBuilder.Create().WithReverse(serie).Now()
@@ -331,32 +327,32 @@ func (app *adapter) matchReversedSerie(serie Serie, content string, index uint)
 	}, groups[0], content[amount:], nil
 }
 
-func (app *adapter) matchesGroup(group Group, content string, isReverse bool) (uint, error) {
-	if !isReverse {
-		prefixLength := group.Content().Contains(content)
-		return prefixLength, nil
-	}
+func (app *adapter) matchesGroup(group Group, content string) (uint, error) {
+	prefixLength := group.Content().Contains(content)
+	return prefixLength, nil
+}
 
-	// we are in reverse:
-	amount := uint(0)
-	remaining := content
-	for {
-		if len(remaining) <= 0 {
-			break
-		}
+func (app *adapter) lengthBeforeSerie(groups []Group, content string) int {
+	length := len(content)
+	for i := 0; i < length; i++ {
+		remaining := content[i:]
+		isMatch := true
+		for _, oneGroup := range groups {
+			prefixLength := oneGroup.Content().Contains(remaining)
+			if prefixLength <= 0 {
+				isMatch = false
+				break
+			}
 
-		prefixLength := group.Content().Contains(remaining)
-		isBreak := prefixLength <= 0
-		if isBreak {
-			amount++
-			remaining = remaining[1:]
-			continue
+			remaining = remaining[prefixLength:]
 		}
 
-		break
+		if isMatch {
+			return i
+		}
 	}
 
-	return amount, nil
+	return length
 }
 
 func (app *adapter) findPatterns(series map[string]Serie, content string) (Patterns, error) {
-- 
2.43.0


From 223585c1cad602e4cc78b3b949329ad9ca8cf6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:24 +0000
Subject: [PATCH 14/57] fix: a pattern that matches partially no longer loses
 the part of the content that its next serie started to match

---
 domain/languages/lexers/containers/patterns/adapter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 36c6c20..4e638e2 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -210,7 +210,10 @@ func (app *adapter) matchPattern(pattern Pattern, content string, nextIndex uint
 			return nil, err
 		}
 
-		remaining = remainingContent
+		if isMatch {
+			remaining = remainingContent
+		}
+
 		if !isMatch && nextGroup != nil {
 			nextBuilder := app.nextBuilder.Create().WithGroup(nextGroup)
 			if oneChoice.IsReverse() {
-- 
2.43.0


From 1eb78facddad5ef88f7dd1a12aa2145e92884d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 15/57] fix: amounts at both bounds of a range are in the range

---
 domain/languages/lexers/asts/tokens/tokenresultmatches.go  | 2 +-
 domain/languages/lexers/containers/patterns/discoveries.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/tokenresultmatches.go b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
index eb9f311..b689f41 100644
--- a/domain/languages/lexers/asts/tokens/tokenresultmatches.go
+++ b/domain/languages/lexers/asts/tokens/tokenresultmatches.go
@@ -69,7 +69,7 @@ func (obj *tokenResultMatches) IsAmount(amount uint) bool {
 // IsInRange returns true if the amount of tokens is within the given range
 func (obj *tokenResultMatches) IsInRange(min uint, max uint) bool {
 	listAmount := len(obj.list)
-	return obj.IsAtLeast(min) && int(max) > listAmount
+	return obj.IsAtLeast(min) && int(max) >= listAmount
 }
 
 // IsAtLeast returns true if there is at least this amount of tokens
diff --git a/domain/languages/lexers/containers/patterns/discoveries.go b/domain/languages/lexers/containers/patterns/discoveries.go
index a425206..f86d837 100644
--- a/domain/languages/lexers/containers/patterns/discoveries.go
+++ b/domain/languages/lexers/containers/patterns/discoveries.go
@@ -66,8 +66,8 @@ func (obj *discoveries) IsAmount(amount uint) bool {
 
 // IsInRange returns true if in range, false otherwise
 func (obj *discoveries) IsInRange(min uint, max uint) bool {
-	currentAmount := len(obj.list)
-	return obj.IsAtLeast(min) && int(max) >= currentAmount
+	currentAmount := obj.Amount()
+	return obj.IsAtLeast(min) && max >= currentAmount
 }
 
 // IsAtLeast returns true if the current amount is at least, false otherwise
-- 
2.43.0


From cd5a9a6a584105c5235b6dea9eafb57b08cb339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 16/57] fix: a rule that is neither a constant nor a list of
 patterns is refused instead of crashing

---
 domain/languages/lexers/containers/rules/adapter.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index a270047..8f56d5c 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -182,6 +182,11 @@ func (app *adapter) pattern(ruleName string, content string, ptrns patterns.Patt
 
 	pattern := regexp.MustCompile(patternStr)
 	matches := pattern.FindStringSubmatch(content)
+	if len(matches) <= 0 {
+		str := fmt.Sprintf("the rule (name: %s) was expecting a constant or a list of patterns, '%s' provided", ruleName, content)
+		return nil, errors.New(str)
+	}
+
 	cardinalityContent := strings.Replace(content, matches[0], "", 1)
 	cardinality, err := app.cardinalityAdapter.ToCardinality(cardinalityContent)
 	if err != nil {
-- 
2.43.0


From 72e0c114b448b7e9a8d336990bc834bada467fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 17/57] fix: a rule matches only when its minimum amount of
 patterns is reached

---
 domain/languages/lexers/asts/results/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/results/adapter.go b/domain/languages/lexers/asts/results/adapter.go
index bbcf8b7..5e4003e 100644
--- a/domain/languages/lexers/asts/results/adapter.go
+++ b/domain/languages/lexers/asts/results/adapter.go
@@ -80,7 +80,7 @@ func (app *adapter) ToResult(input rules.Rule, script string) (Result, error) {
 			remaining = remaining[amount:]
 		}
 
-		if len(list) > 0 {
+		if len(list) > 0 && cardinality.IsValid(uint(len(list))) {
 			builder.WithMatches(list)
 		}
 
-- 
2.43.0


From 032727e30a40b2c5e5a216495f3cfa21e8c96f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 18/57] fix: the characters ### in a constant or a group are no
 longer read as a quotation mark

---
 domain/languages/lexers/containers/patterns/sdk.go | 2 +-
 domain/languages/lexers/containers/rules/sdk.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/sdk.go b/domain/languages/lexers/containers/patterns/sdk.go
index 0972d4e..1e25847 100644
--- a/domain/languages/lexers/containers/patterns/sdk.go
+++ b/domain/languages/lexers/containers/patterns/sdk.go
@@ -23,7 +23,7 @@ func NewAdapter() Adapter {
 	stringDelimiter := "\""
 	whiteSpacePattern := "[ \t\r\n]*"
 	anythingExcept := "[^%s]*"
-	escapeReplacementCode := "###"
+	escapeReplacementCode := "\x00"
 	return createAdapter(
 		builder,
 		patternBuilder,
diff --git a/domain/languages/lexers/containers/rules/sdk.go b/domain/languages/lexers/containers/rules/sdk.go
index edd76e7..db1d9a7 100644
--- a/domain/languages/lexers/containers/rules/sdk.go
+++ b/domain/languages/lexers/containers/rules/sdk.go
@@ -28,7 +28,7 @@ func NewAdapter() Adapter {
 	contentDelimiter := "\""
 	openRegexPatternDelimiter := "\\["
 	closeRegexPatternDelimiter := "\\]"
-	escapeReplacementCode := "###"
+	escapeReplacementCode := "\x00"
 	return createAdapter(
 		builder,
 		ruleBuilder,
-- 
2.43.0


From 2e2602f927aff488a5a0fe4ccfcd9019c17c14b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 19/57] fix: an escaped quotation mark inside a longer option
 of a group is read as a quotation mark

---
 domain/languages/lexers/containers/patterns/adapter.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 4e638e2..489e400 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -493,11 +493,7 @@ func (app *adapter) findGroups(content string) (Groups, error) {
 		characters := []string{}
 		options := strings.Split(oneMatch[2], app.delimiter)
 		for _, oneOption := range options {
-
-			if oneOption == app.escapeReplacementCode {
-				oneOption = app.stringDelimiter
-			}
-
+			oneOption = strings.Replace(oneOption, app.escapeReplacementCode, app.stringDelimiter, -1)
 			characters = append(characters, oneOption)
 		}
 
-- 
2.43.0


From c71c35cde05f206a948c59f2da87950f4a4dd1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 20/57] fix: a channel switch written after an element is no
 longer dropped

---
 .../lexers/containers/tokens/adapter.go         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/domain/languages/lexers/containers/tokens/adapter.go b/domain/languages/lexers/containers/tokens/adapter.go
index 88da9ad..34db112 100644
--- a/domain/languages/lexers/containers/tokens/adapter.go
+++ b/domain/languages/lexers/containers/tokens/adapter.go
@@ -413,15 +413,6 @@ func (app *adapter) instructions(content string) ([]Instruction, error) {
 		ruleMatches := oneMatch[index:]
 
 		instructionBuilder := app.instructionBuilder.Create()
-		if oneMatch[0] == app.switchChannelCharacter {
-			ins, err := instructionBuilder.IsChannelSwitch().Now()
-			if err != nil {
-				return nil, err
-			}
-
-			out = append(out, ins)
-		}
-
 		if tokenMatches[0] != "" {
 			tokenElement, err := app.tokenElement(tokenMatches)
 			if err != nil {
@@ -450,6 +441,14 @@ func (app *adapter) instructions(content string) ([]Instruction, error) {
 			out = append(out, ins)
 		}
 
+		if strings.HasSuffix(oneMatch[0], app.switchChannelCharacter) {
+			ins, err := app.instructionBuilder.Create().IsChannelSwitch().Now()
+			if err != nil {
+				return nil, err
+			}
+
+			out = append(out, ins)
+		}
 	}
 
 	return out, nil
-- 
2.43.0


From 86468df37c8ea08bd9e0ca8d2469bf6c55ec8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:04 +0000
Subject: [PATCH 21/57] fix: the base grammar derives the fetching of an
 element from a parenthesised list, its own example

---
 domain/languages/scripts/resources/base/tokens.alex | 1 +
 1 file changed, 1 insertion(+)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 733c4d5..d694d77 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -663,6 +663,7 @@ listAssignableToAssignables
 totalListValue
     : variableName
     | totalListAssignable
+    | OPEN_PARENTHESIS totalListAssignable CLOSE_PARENTHESIS
     +++
     :
         []
-- 
2.43.0


From ffccd272ea8dc3833656d3b8a039054c6fd4ae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 22/57] fix: a token with not-lines is valid only when its
 must-lines match

---
 domain/languages/lexers/asts/tokens/tokencontent.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/tokencontent.go b/domain/languages/lexers/asts/tokens/tokencontent.go
index 509136e..025dd92 100644
--- a/domain/languages/lexers/asts/tokens/tokencontent.go
+++ b/domain/languages/lexers/asts/tokens/tokencontent.go
@@ -32,8 +32,8 @@ func createTokenContentInternally(
 
 // IsValid returns true if the token is valid, false otherwise
 func (obj *tokenContent) IsValid() bool {
-	if obj.HasNot() {
-		return !obj.Not().Matches().IsValid()
+	if obj.HasNot() && obj.Not().Matches().IsValid() {
+		return false
 	}
 
 	return obj.must.Matches().IsValid()
-- 
2.43.0


From d40c6c137f4fad83813bdbe98f446d0de67add38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 23/57] fix: a mandatory element that follows an optional one
 at the end of the script is no longer ignored

---
 domain/languages/lexers/asts/tokens/adapter.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 0def7c4..7e264db 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -332,7 +332,12 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 		}
 
 		if match == nil {
-			break
+			// there is no script left and the element is optional, so skip it:
+			if remainingScript == "" {
+				continue
+			}
+
+			return nil, nil
 		}
 
 		// if the match is invalid:
-- 
2.43.0


From 5b96310bda0a9d3c39d57abe70fc1a3bca4ced0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 24/57] fix: an alternative is no longer cut short because a
 previous one parsed the same recursive token

---
 domain/languages/lexers/asts/tokens/adapter.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 7e264db..514cbc3 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -577,14 +577,20 @@ func (app *adapter) containerToMatch(container paths.Container, dependencies pat
 	if container.IsRecursive() {
 		recursiveToken := container.Recursive()
 		name := recursiveToken.Name()
-		if previousScript, ok := app.recursiveTokens[name]; ok {
-			if previousScript == script {
-				delete(app.recursiveTokens, name)
-				return nil, nil
-			}
+		previousScript, isNested := app.recursiveTokens[name]
+		if isNested && previousScript == script {
+			return nil, nil
 		}
 
+		// the script is the current one of the recursive token only until it is parsed:
 		app.recursiveTokens[name] = script
+		defer func() {
+			delete(app.recursiveTokens, name)
+			if isNested {
+				app.recursiveTokens[name] = previousScript
+			}
+		}()
+
 		element, err := dependencies.Fetch(name)
 		if err != nil {
 			str := fmt.Sprintf("the recursive token (name: %s) could not be found: %s", name, err.Error())
-- 
2.43.0


From 84046ae6bc4e00156493a43fd728681d89abe3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 25/57] fix: a repeated constant stops where it is not
 repeated, wherever it occurs again later

---
 .../languages/lexers/asts/tokens/adapter.go   | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 514cbc3..56f838e 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -744,7 +744,6 @@ func (app *adapter) tokenPathToTokenResultMatches(
 func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAreActivated bool) (RuleMatch, error) {
 	remaining := script
 	rule := rulePath.Base()
-	scriptLength := len(script)
 	list := []results.Result{}
 	canContainPrefix := app.canContainPrefix && chansAreActivated
 	_, pMax := rulePath.Cardinality().Delimiter()
@@ -758,25 +757,21 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 			break
 		}
 
-		list = append(list, res)
-		content := res.Content()
-
-		if res.HasMatches() {
-			matches := res.Matches().List()
-			index := matches[0].Discoveries().Index()
-			if index > 0 {
-				app.canContainPrefix = false
-			}
+		// only the first result can have a prefix, the next ones must follow the previous one:
+		index := res.Matches().List()[0].Discoveries().Index()
+		if index > 0 && len(list) > 0 {
+			break
+		}
 
-			if index > 0 && !canContainPrefix {
+		list = append(list, res)
+		if index > 0 {
+			app.canContainPrefix = false
+			if !canContainPrefix {
 				break
 			}
 		}
 
-		contentLength := len(content)
-		if scriptLength <= contentLength {
-			break
-		}
+		contentLength := len(res.Content())
 
 		remaining = remaining[contentLength:]
 		if pMax != nil && uint(len(list)) >= *pMax {
-- 
2.43.0


From bae7cc6faaa27e7f76f42209b6d15291604456bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 26/57] fix: the channels are tried in the order of their
 declaration, not in a random one

---
 domain/languages/lexers/asts/tokens/adapter.go         | 6 +++---
 domain/languages/lexers/asts/tokens/adapter_builder.go | 5 ++---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 56f838e..93173de 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -32,7 +32,7 @@ type adapter struct {
 	pathTokenBuilder          paths.TokenBuilder
 	pathBuilder               paths.Builder
 	rootPath                  paths.Path
-	channels                  map[string]paths.Path
+	channels                  []paths.Path
 	canContainPrefix          bool
 	canContainSuffix          bool
 	recursiveTokens           map[string]string
@@ -59,7 +59,7 @@ func createAdapterWithChannels(
 	pathTokenBuilder paths.TokenBuilder,
 	pathBuilder paths.Builder,
 	rootPath paths.Path,
-	channels map[string]paths.Path,
+	channels []paths.Path,
 	canContainPrefix bool,
 	canContainSuffix bool,
 ) Adapter {
@@ -162,7 +162,7 @@ func createAdapterInternally(
 	pathTokenBuilder paths.TokenBuilder,
 	pathBuilder paths.Builder,
 	rootPath paths.Path,
-	channels map[string]paths.Path,
+	channels []paths.Path,
 	canContainPrefix bool,
 	canContainSuffix bool,
 ) Adapter {
diff --git a/domain/languages/lexers/asts/tokens/adapter_builder.go b/domain/languages/lexers/asts/tokens/adapter_builder.go
index 52eeb34..c07caaa 100644
--- a/domain/languages/lexers/asts/tokens/adapter_builder.go
+++ b/domain/languages/lexers/asts/tokens/adapter_builder.go
@@ -191,7 +191,7 @@ func (app *adapterBuilder) Now() (Adapter, error) {
 	}
 
 	if app.channels != nil {
-		channelPaths := map[string]paths.Path{}
+		channelPaths := []paths.Path{}
 		channels := app.channels.All()
 		for _, oneChannelToken := range channels {
 			channelPath, err := pathAdapter.ToPath(oneChannelToken)
@@ -199,8 +199,7 @@ func (app *adapterBuilder) Now() (Adapter, error) {
 				return nil, err
 			}
 
-			name := oneChannelToken.Name()
-			channelPaths[name] = channelPath
+			channelPaths = append(channelPaths, channelPath)
 		}
 
 		return createAdapterWithChannels(
-- 
2.43.0


From f8aaac3d459b47730c39be2c1fc2007d2d7d7c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 27/57] fix: several channels in a row are skipped before a
 channel switch, not only the first one

---
 domain/languages/lexers/asts/tokens/adapter.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 93173de..33ffd15 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -499,8 +499,9 @@ func (app *adapter) findChannelBlockMatch(container paths.Container, dependencie
 		return nil, nil
 	}
 
+	// there can be several channels before the container, even if they are switched off after them:
 	remainingScript := strings.Replace(script, matchesScript, "", 1)
-	blockMatch, err := app.containerToBlockMatch(container, dependencies, remainingScript, nextChansAreActivated, nextChansAreActivated)
+	blockMatch, err := app.containerToBlockMatch(container, dependencies, remainingScript, true, nextChansAreActivated)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 7351889cc3a487a6b597572e735505c41113ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 28/57] fix: a mistake is that of the line that matched the
 most elements, and keeps what matched before it

---
 domain/languages/lexers/asts/tokens/adapter.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 33ffd15..303e878 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -271,6 +271,7 @@ func (app *adapter) bestLineToMatches(lines []paths.Line, dependencies paths.Dep
 			if amount > biggestAmountOfInvalidMatches {
 				invalidMatches = matches
 				invalidMatchIndex = index
+				biggestAmountOfInvalidMatches = amount
 			}
 
 			continue
@@ -342,10 +343,7 @@ func (app *adapter) lineToMatches(line paths.Line, dependencies paths.Dependenci
 
 		// if the match is invalid:
 		if !match.IsValid() {
-			matches = []BlockMatch{
-				match,
-			}
-
+			matches = append(matches, match)
 			break
 		}
 
-- 
2.43.0


From 117e368ab61b5c23809497984c173c95d415a473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 29/57] fix: the index of a mistake counts everything that was
 read before it

---
 .../languages/lexers/asts/mistakes/adapter.go | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/domain/languages/lexers/asts/mistakes/adapter.go b/domain/languages/lexers/asts/mistakes/adapter.go
index b537823..59863fb 100644
--- a/domain/languages/lexers/asts/mistakes/adapter.go
+++ b/domain/languages/lexers/asts/mistakes/adapter.go
@@ -63,13 +63,16 @@ func (app *adapter) token(parentTokenNames []string, result tokens.Token, canCon
 		return app.rootTokenNotFound(parentTokenNames, result, canContainPrefix)
 	}
 
+	// the script that was read before the token:
+	script := app.currentScript
+
 	// verify if there is not matches:
 	name := result.Name()
 	content := result.Content()
 	dependencies := result.Path().Dependencies()
 	if content.HasNot() {
 		not := content.Not()
-		notMistake, err := app.lineMatchAndResetCurrentScript(parentTokenNames, name, not, dependencies, canContainPrefix)
+		notMistake, err := app.lineMatchFromScript(script, parentTokenNames, name, not, dependencies, canContainPrefix)
 		if err != nil {
 			return nil, err
 		}
@@ -89,14 +92,14 @@ func (app *adapter) token(parentTokenNames []string, result tokens.Token, canCon
 			return app.buildMistakeFromToken(
 				name,
 				parentTokenNames,
-				app.currentScript,
+				script,
 				content,
 			)
 		}
 	}
 
 	must := content.Must()
-	out, err := app.lineMatchAndResetCurrentScript(parentTokenNames, name, must, dependencies, canContainPrefix)
+	out, err := app.lineMatchFromScript(script, parentTokenNames, name, must, dependencies, canContainPrefix)
 	if err != nil {
 		return nil, err
 	}
@@ -119,8 +122,8 @@ func (app *adapter) rootTokenNotFound(parentTokenNames []string, result tokens.T
 	return app.buildMistakeFromPath(pathContainer, "", content)
 }
 
-func (app *adapter) lineMatchAndResetCurrentScript(parentTokenNames []string, tokenName string, lineMatch tokens.LineMatch, dependencies paths.Dependencies, canContainPrefix bool) (Mistake, error) {
-	app.currentScript = ""
+func (app *adapter) lineMatchFromScript(script string, parentTokenNames []string, tokenName string, lineMatch tokens.LineMatch, dependencies paths.Dependencies, canContainPrefix bool) (Mistake, error) {
+	app.currentScript = script
 	return app.lineMatch(parentTokenNames, tokenName, lineMatch, dependencies, canContainPrefix)
 }
 
@@ -351,7 +354,9 @@ func (app *adapter) ruleMatch(parentTokenNames []string, ruleMatch tokens.RuleMa
 				return nil, err
 			}
 
-			return mistake, nil
+			if mistake != nil {
+				return mistake, nil
+			}
 		}
 	}
 
@@ -384,11 +389,6 @@ func (app *adapter) patternResults(parentTokenNames []string, ruleName string, r
 }
 
 func (app *adapter) patternResult(parentTokenNames []string, ruleName string, match patterns.Result, canContainPrefix bool) (Mistake, error) {
-	app.currentScript = strings.Join([]string{
-		app.currentScript,
-		match.Discoveries().Content(),
-	}, "")
-
 	index := match.Discoveries().Index()
 	if !canContainPrefix && index > 0 {
 		input := match.Input()
@@ -410,6 +410,11 @@ func (app *adapter) patternResult(parentTokenNames []string, ruleName string, ma
 		)
 	}
 
+	app.currentScript = strings.Join([]string{
+		app.currentScript,
+		match.Discoveries().Content(),
+	}, "")
+
 	return nil, nil
 }
 
-- 
2.43.0


From c3f69bc0cbefe659a076de957254e6e7e15ce930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 30/57] fix: two sub tokens with the same content but other
 names no longer share one root

---
 domain/languages/lexers/roots/adapter.go | 35 ++----------------------
 1 file changed, 2 insertions(+), 33 deletions(-)

diff --git a/domain/languages/lexers/roots/adapter.go b/domain/languages/lexers/roots/adapter.go
index 8482f37..863bce8 100644
--- a/domain/languages/lexers/roots/adapter.go
+++ b/domain/languages/lexers/roots/adapter.go
@@ -10,7 +10,6 @@ type adapter struct {
 	nodeBuilder       NodeBuilder
 	containersBuilder ContainersBuilder
 	containerBuilder  ContainerBuilder
-	tokenRoots        map[string]Root
 }
 
 func createAdapter(
@@ -26,19 +25,13 @@ func createAdapter(
 		nodeBuilder:       nodeBuilder,
 		containersBuilder: containersBuilder,
 		containerBuilder:  containerBuilder,
-		tokenRoots:        nil,
 	}
 
 	return &out
 }
 
-func (app *adapter) init() {
-	app.tokenRoots = map[string]Root{}
-}
-
 // ToRoot converts a root token to an instance
 func (app *adapter) ToRoot(token asts.Token) (Root, error) {
-	app.init()
 	return app.toRoot(token)
 }
 
@@ -48,21 +41,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, nil
 	}
 
-	// enter the sub tokens:
 	matches := lineMatch.Matches()
-	for _, oneMatch := range matches {
-		if !oneMatch.IsToken() {
-			continue
-		}
-
-		tokens := oneMatch.Token().Matches()
-		for _, oneToken := range tokens {
-			_, err := app.toRoot(oneToken)
-			if err != nil {
-				return nil, err
-			}
-		}
-	}
 
 	// create the containers map:
 	containersMap := map[string][]Container{}
@@ -72,7 +51,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 			tokenName := tokenMatch.Token()
 			matchTokens := tokenMatch.Matches()
 			for _, oneMatchToken := range matchTokens {
-				root, err := app.toRootWithCache(oneMatchToken)
+				root, err := app.toRoot(oneMatchToken)
 				if err != nil {
 					return nil, err
 				}
@@ -102,7 +81,7 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 
 	nodesMap := map[string]Node{}
 	for name, containerList := range containersMap {
-		containers, err := app.containersBuilder.WithList(containerList).Now()
+		containers, err := app.containersBuilder.Create().WithList(containerList).Now()
 		if err != nil {
 			return nil, err
 		}
@@ -127,15 +106,5 @@ func (app *adapter) toRoot(token asts.Token) (Root, error) {
 		return nil, err
 	}
 
-	app.tokenRoots[content] = ins
 	return ins, nil
 }
-
-func (app *adapter) toRootWithCache(token asts.Token) (Root, error) {
-	content := token.Discovery()
-	if ref, ok := app.tokenRoots[content]; ok {
-		return ref, nil
-	}
-
-	return app.toRoot(token)
-}
-- 
2.43.0


From 7ca6209930bfda6e07c2fcf218df968a55407625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 31/57] fix: scanning nodes finds the direct one before those
 nested in its siblings, in a fixed order

---
 domain/languages/lexers/roots/nodes.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/domain/languages/lexers/roots/nodes.go b/domain/languages/lexers/roots/nodes.go
index 3c89ec2..55926aa 100644
--- a/domain/languages/lexers/roots/nodes.go
+++ b/domain/languages/lexers/roots/nodes.go
@@ -3,6 +3,7 @@ package roots
 import (
 	"errors"
 	"fmt"
+	"sort"
 )
 
 type nodes struct {
@@ -41,7 +42,20 @@ func (obj *nodes) Fetch(name string) (Node, error) {
 
 // Scan scans the node
 func (obj *nodes) Scan(name string) (Root, Node, Container, string, error) {
-	for _, node := range obj.list {
+	// the node itself comes before those of its siblings:
+	if node, ok := obj.list[name]; ok {
+		return nil, node, nil, "", nil
+	}
+
+	// always scan the siblings in the same order:
+	names := []string{}
+	for nodeName := range obj.list {
+		names = append(names, nodeName)
+	}
+
+	sort.Strings(names)
+	for _, nodeName := range names {
+		node := obj.list[nodeName]
 		root, subNode, container, content, err := node.Scan(name)
 		if err != nil {
 			continue
-- 
2.43.0


From 21d150a0075ee9507277f518b29aacb0346e8d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:49 +0000
Subject: [PATCH 32/57] fix: a script that ends before a token that begins with
 itself is a mistake, not an endless recursion

---
 .../languages/lexers/asts/tokens/adapter.go   | 62 +++++++++++++++----
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 303e878..247dac7 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -431,30 +431,68 @@ func (app *adapter) buildNextElementFromTokenName(name string, dep paths.Depende
 }
 
 func (app *adapter) fetchFirstRuleFromTokenName(name string, dep paths.Dependencies) (rules.Rule, error) {
-	tokenPath, err := dep.Fetch(name)
+	rule, err := app.fetchFirstRuleFromTokenNameOnce(name, dep, map[string]bool{})
 	if err != nil {
 		return nil, err
 	}
 
-	mustLines := tokenPath.Must()
-	firstContainer, err := app.fetchFirstContainerFromLine(mustLines[0])
-	if err != nil {
-		return nil, err
+	if rule == nil {
+		str := fmt.Sprintf("the token (name: %s) does not begin with any rule", name)
+		return nil, errors.New(str)
 	}
 
-	if firstContainer.IsToken() {
-		nextToken := firstContainer.Token().Path().Element().Name()
-		return app.fetchFirstRuleFromTokenName(nextToken, dep)
+	return rule, nil
+}
+
+func (app *adapter) fetchFirstRuleFromTokenNameOnce(name string, dep paths.Dependencies, visited map[string]bool) (rules.Rule, error) {
+	// a token that begins with itself does not tell which rule is first:
+	if visited[name] {
+		return nil, nil
 	}
 
-	if firstContainer.IsRule() {
-		return firstContainer.Rule().Base(), nil
+	visited[name] = true
+	tokenPath, err := dep.Fetch(name)
+	if err != nil {
+		return nil, err
 	}
 
-	recursiveToken := firstContainer.Recursive().Name()
-	return app.fetchFirstRuleFromTokenName(recursiveToken, dep)
+	mustLines := tokenPath.Must()
+	for _, oneLine := range mustLines {
+		firstContainer, err := app.fetchFirstContainerFromLine(oneLine)
+		if err != nil {
+			return nil, err
+		}
+
+		if firstContainer == nil {
+			continue
+		}
+
+		if firstContainer.IsRule() {
+			return firstContainer.Rule().Base(), nil
+		}
+
+		nextToken := ""
+		if firstContainer.IsToken() {
+			nextToken = firstContainer.Token().Path().Element().Name()
+		}
+
+		if firstContainer.IsRecursive() {
+			nextToken = firstContainer.Recursive().Name()
+		}
+
+		rule, err := app.fetchFirstRuleFromTokenNameOnce(nextToken, dep, visited)
+		if err != nil {
+			return nil, err
+		}
+
+		if rule != nil {
+			return rule, nil
+		}
+	}
 
+	return nil, nil
 }
+
 func (app *adapter) fetchFirstContainerFromLine(line paths.Line) (paths.Container, error) {
 	instructions := line.Instructions()
 	for _, oneInstruction := range instructions {
-- 
2.43.0


From 91a6e05f0d6d42a8af823ce1e1667b2c003504aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 33/57] fix: a variable whose name begins with that of a type
 is no longer read as a declaration

---
 domain/languages/scripts/resources/base/tokens.alex | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index d694d77..ec5ee07 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -471,8 +471,8 @@ commaAssigneeFirst
     ;
 
 assigneeNameFirst
-    : variableDeclaration
-    | assigneeName
+    : assigneeName
+    | variableDeclaration
     +++
     :
         string myVariable
-- 
2.43.0


From 7240b2e3497689b952891a5108183fdbf040c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 34/57] fix: true and false are read as values when they are
 assigned, not as lists with these names

---
 domain/languages/scripts/resources/base/tokens.alex | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index ec5ee07..8a7779e 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -539,8 +539,8 @@ commaAssignable
     ;
 
 assignable
-    : totalListAssignable
-    | singleAssignable
+    : singleAssignable
+    | totalListAssignable
     +++
     :
         -456.543
-- 
2.43.0


From 085f5337b43400b0eebde75b40a2413964d5ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:02 +0000
Subject: [PATCH 35/57] fix: an empty text is a text

---
 domain/languages/scripts/base/parsers/helper.go     | 4 ++++
 domain/languages/scripts/resources/base/tokens.alex | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/domain/languages/scripts/base/parsers/helper.go b/domain/languages/scripts/base/parsers/helper.go
index ef6f11a..a46fef5 100644
--- a/domain/languages/scripts/base/parsers/helper.go
+++ b/domain/languages/scripts/base/parsers/helper.go
@@ -974,6 +974,10 @@ func newEvents(bitsize uint) map[string]parsers.EventFunc {
 			return manager.Trigger("stringValue", root)
 		},
 		"stringValue": func(root roots.Root, manager parsers.Manager) (interface{}, error) {
+			if !root.Nodes().Exists("EVERYTHING_EXCEPT_QUOTATION") {
+				return valueBuilder.Create().WithString("").Now()
+			}
+
 			result, err := manager.Trigger("EVERYTHING_EXCEPT_QUOTATION", root)
 			if err != nil {
 				return nil, err
diff --git a/domain/languages/scripts/resources/base/tokens.alex b/domain/languages/scripts/resources/base/tokens.alex
index 8a7779e..2fe9d85 100644
--- a/domain/languages/scripts/resources/base/tokens.alex
+++ b/domain/languages/scripts/resources/base/tokens.alex
@@ -780,7 +780,7 @@ primitiveValue
     ;
 
 stringValue
-    : # QUOTATION EVERYTHING_EXCEPT_QUOTATION QUOTATION #
+    : # QUOTATION EVERYTHING_EXCEPT_QUOTATION? QUOTATION #
     +++
     :
         "this is some string"
-- 
2.43.0


From 1c7de6907c218ae5483b1a5856e3031d5fbd9117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:34 +0000
Subject: [PATCH 36/57] fix: an include with a single path is refused instead
 of crashing

---
 domain/languages/lexers/references/adapter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/references/adapter.go b/domain/languages/lexers/references/adapter.go
index b7c9417..18f03c1 100644
--- a/domain/languages/lexers/references/adapter.go
+++ b/domain/languages/lexers/references/adapter.go
@@ -108,7 +108,7 @@ func (app *adapter) includes(content string) (map[string]links.Include, error) {
 		pathStrings := strings.Split(oneMatch[2], app.pathSeparator)
 		amount := len(pathStrings)
 		name := oneMatch[1]
-		if amount > 3 {
+		if amount < 2 || amount > 3 {
 			str := fmt.Sprintf("the include (name: %s) must contain {2,3} (rules, tokens, channels (optional)) paths, %d paths provided", name, amount)
 			return nil, errors.New(str)
 		}
-- 
2.43.0


From a165f823d54f09e19ec373f39dec0f2015b902cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 37/57] fix: a reference to an included token is linked with
 the patterns of the grammar, instead of always failing

---
 applications/languages/lexers/application.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 76a54b8..c96f478 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -401,7 +401,7 @@ func (app *application) fetchNotFoundPaths(
 
 	refList := references.References().All()
 	for _, oneReference := range refList {
-		path, err := app.linkToPathFromFile(oneReference, replacementPaths)
+		path, err := app.linkToPathFromFile(oneReference, resContainer, replacementPaths)
 		if err != nil {
 			return nil, err
 		}
@@ -415,6 +415,7 @@ func (app *application) fetchNotFoundPaths(
 
 func (app *application) linkToPathFromFile(
 	reference links.Link,
+	parent resources_containers.Container,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
 	applicationBuilder := app.builder.Create()
@@ -440,7 +441,7 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	resContainer, err := app.resourcesContainerBuilder.Create().WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
+	resContainer, err := app.resourcesContainerBuilder.Create().WithPatterns(parent.Patterns()).WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From f1a445ba2aee9c15a9058975484e0454a94efe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 38/57] fix: the replacements of a grammar no longer remain in
 the application

---
 applications/languages/lexers/application.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index c96f478..ce4f0ac 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -369,6 +369,12 @@ func (app *application) fetchReplacementPaths(
 		return replacementPaths, nil
 	}
 
+	// the replacements of a grammar must not remain in the application, nor apply to the grammar that includes it:
+	extended := map[string]asts_paths.Path{}
+	for name, onePath := range replacementPaths {
+		extended[name] = onePath
+	}
+
 	repList := references.Replacements().All()
 	for _, oneReplacement := range repList {
 		localTokenName := oneReplacement.LocalToken()
@@ -377,16 +383,16 @@ func (app *application) fetchReplacementPaths(
 			return nil, err
 		}
 
-		refPath, err := app.path(resPath, replacementPaths, true)
+		refPath, err := app.path(resPath, extended, true)
 		if err != nil {
 			return nil, err
 		}
 
 		refTokenName := oneReplacement.ReferenceToken()
-		replacementPaths[refTokenName] = refPath
+		extended[refTokenName] = refPath
 	}
 
-	return replacementPaths, nil
+	return extended, nil
 }
 
 func (app *application) fetchNotFoundPaths(
-- 
2.43.0


From 4fdf734a88683e6ba589f95aa2727b9942f958f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:02 +0000
Subject: [PATCH 39/57] fix: the tokens of an included grammar that refer to
 themselves keep the replaced tokens

---
 applications/languages/lexers/application.go | 54 +++++++++++++++++++-
 1 file changed, 53 insertions(+), 1 deletion(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index ce4f0ac..6189189 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -505,9 +505,61 @@ func (app *application) returnFetchElementReplacementFn(
 ) asts_paths.FetchElementReplacementFn {
 	return func(name string) (asts_paths.Element, []asts_paths.Element) {
 		if path, ok := mp[name]; ok {
-			return path.Element(), path.Dependencies().All()
+			return path.Element(), app.neededDependencies(path)
 		}
 
 		return nil, nil
 	}
 }
+
+// neededDependencies returns the dependencies that the element of the path refers to, directly or not. The other ones,
+// where the replacements do not apply yet, must not hide the replaced ones
+func (app *application) neededDependencies(path asts_paths.Path) []asts_paths.Element {
+	dependencies := path.Dependencies()
+	visited := map[string]bool{}
+	needed := []asts_paths.Element{}
+	names := []string{path.Element().Name()}
+	for len(names) > 0 {
+		name := names[0]
+		names = names[1:]
+		if visited[name] {
+			continue
+		}
+
+		visited[name] = true
+		element, err := dependencies.Fetch(name)
+		if err != nil {
+			continue
+		}
+
+		needed = append(needed, element)
+		names = append(names, app.referredNames(element.Must())...)
+		if element.HasNot() {
+			names = append(names, app.referredNames(element.Not())...)
+		}
+	}
+
+	return needed
+}
+
+func (app *application) referredNames(lines []asts_paths.Line) []string {
+	names := []string{}
+	for _, oneLine := range lines {
+		for _, oneInstruction := range oneLine.Instructions() {
+			if !oneInstruction.IsContainer() {
+				continue
+			}
+
+			container := oneInstruction.Container()
+			if container.IsToken() {
+				names = append(names, container.Token().Path().Element().Name())
+			}
+
+			if container.IsRecursive() {
+				names = append(names, container.Recursive().Name())
+			}
+		}
+	}
+
+	return names
+}
-- 
2.43.0


From b47f5314b37b1b1e77587f1e67fe03e8689bd2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:00 +0000
Subject: [PATCH 40/57] fix: files that include each other are refused instead
 of being linked endlessly

---
 applications/languages/lexers/application.go | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/applications/languages/lexers/application.go b/applications/languages/lexers/application.go
index 6189189..e74e3c0 100644
--- a/applications/languages/lexers/application.go
+++ b/applications/languages/lexers/application.go
@@ -1,6 +1,8 @@
 package lexers
 
 import (
+	"errors"
+	"fmt"
 	"io/ioutil"
 	"path/filepath"
 
@@ -38,6 +40,7 @@ type application struct {
 	builder                   Builder
 	basePath                  paths.Paths
 	replacementPaths          map[string]asts_paths.Path
+	linkedPaths               []string
 }
 
 func createApplication(
@@ -424,16 +427,6 @@ func (app *application) linkToPathFromFile(
 	parent resources_containers.Container,
 	replacements map[string]asts_paths.Path,
 ) (asts_paths.Path, error) {
-	applicationBuilder := app.builder.Create()
-	if len(replacements) > 0 {
-		applicationBuilder.WithReplacementPaths(replacements)
-	}
-
-	application, err := applicationBuilder.WithBasePaths(app.basePath).Now()
-	if err != nil {
-		return nil, err
-	}
-
 	includePaths := reference.Include().Paths()
 	rulesPath := filepath.Join(app.basePath.Rules(), includePaths.Rules())
 	rulesContent, err := ioutil.ReadFile(rulesPath)
@@ -447,6 +440,14 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
+	// the files that include themselves, directly or not, would be linked endlessly:
+	for _, onePath := range app.linkedPaths {
+		if onePath == tokenPath {
+			str := fmt.Sprintf("the include (name: %s, tokens: %s) includes itself", reference.Include().Name(), tokenPath)
+			return nil, errors.New(str)
+		}
+	}
+
 	resContainer, err := app.resourcesContainerBuilder.Create().WithPatterns(parent.Patterns()).WithRules(string(rulesContent)).WithTokens(string(tokenContent)).Now()
 	if err != nil {
 		return nil, err
@@ -458,7 +459,10 @@ func (app *application) linkToPathFromFile(
 		return nil, err
 	}
 
-	refPath, err := application.Path(resPath)
+	included := *app
+	included.replacementPaths = replacements
+	included.linkedPaths = append(append([]string{}, app.linkedPaths...), tokenPath)
+	refPath, err := included.Path(resPath)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2898e7e2a4febc0fa75c8cb529ec02af397a789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:12 +0000
Subject: [PATCH 41/57] fix: a name that begins or ends with the keyword of a
 directive is no longer read as that directive

---
 domain/languages/lexers/references/sdk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/languages/lexers/references/sdk.go b/domain/languages/lexers/references/sdk.go
index 80bad0e..e1475d1 100644
--- a/domain/languages/lexers/references/sdk.go
+++ b/domain/languages/lexers/references/sdk.go
@@ -12,9 +12,9 @@ func NewAdapter() Adapter {
 	linkBuilder := links.NewLinkBuilder()
 	linksBuilder := links.NewBuilder()
 	builder := NewBuilder()
-	includeKeyword := "include"
-	referenceKeyword := "reference"
-	replacementKeyword := "replace"
+	includeKeyword := "\\binclude[ \t\r\n]+"
+	referenceKeyword := "\\breference[ \t\r\n]+"
+	replacementKeyword := "\\breplace[ \t\r\n]+"
 	quoteChar := "\""
 	dotChar := "."
 	tokenPattern := "[a-z]{1}[a-zA-Z]*"
-- 
2.43.0


From c45a8ebb2a91d7e2bcfd8d43f6ea195e4567f3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:07 +0000
Subject: [PATCH 42/57] fix: the tests of a token are no longer searched for
 directives

---
 domain/languages/lexers/references/adapter.go | 6 ++++++
 domain/languages/lexers/references/sdk.go     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/domain/languages/lexers/references/adapter.go b/domain/languages/lexers/references/adapter.go
index 18f03c1..9cbed33 100644
--- a/domain/languages/lexers/references/adapter.go
+++ b/domain/languages/lexers/references/adapter.go
@@ -25,6 +25,7 @@ type adapter struct {
 	anythingExceptPattern string
 	spacePattern          string
 	pathSeparator         string
+	testSuitePattern      string
 }
 
 func createAdapter(
@@ -42,6 +43,7 @@ func createAdapter(
 	anythingExceptPattern string,
 	spacePattern string,
 	pathSeparator string,
+	testSuitePattern string,
 ) Adapter {
 	out := adapter{
 		includeBuilder:        includeBuilder,
@@ -58,6 +60,7 @@ func createAdapter(
 		anythingExceptPattern: anythingExceptPattern,
 		spacePattern:          spacePattern,
 		pathSeparator:         pathSeparator,
+		testSuitePattern:      testSuitePattern,
 	}
 
 	return &out
@@ -65,6 +68,9 @@ func createAdapter(
 
 // ToReferences converts content to a References instance, if any
 func (app *adapter) ToReferences(content string) (References, error) {
+	// the tests of the tokens are texts of the described language, not directives:
+	content = regexp.MustCompile(app.testSuitePattern).ReplaceAllString(content, "")
+
 	includes, err := app.includes(content)
 	if err != nil {
 		return nil, err
diff --git a/domain/languages/lexers/references/sdk.go b/domain/languages/lexers/references/sdk.go
index e1475d1..6f22a97 100644
--- a/domain/languages/lexers/references/sdk.go
+++ b/domain/languages/lexers/references/sdk.go
@@ -21,6 +21,7 @@ func NewAdapter() Adapter {
 	anythingExcept := "[^%s]*"
 	spacePattern := "[ \t\r\n]*"
 	pathSeparator := ";"
+	testSuitePattern := "\\+\\+\\+[^;]*;"
 	return createAdapter(
 		includeBuilder,
 		pathsBuilder,
@@ -36,6 +37,7 @@ func NewAdapter() Adapter {
 		anythingExcept,
 		spacePattern,
 		pathSeparator,
+		testSuitePattern,
 	)
 }
 
-- 
2.43.0


From cce0db877e31f446726c214724fe05559e85a3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 43/57] fix: the text of a signature is refused when it is not
 the one that the signature gives, so that nobody rewrites it

---
 domain/cryptography/keys/signature/adapter.go        | 12 +++++++++++-
 .../keys/signature/ringsignature_adapter.go          |  8 +++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/domain/cryptography/keys/signature/adapter.go b/domain/cryptography/keys/signature/adapter.go
index acf7796..900e839 100644
--- a/domain/cryptography/keys/signature/adapter.go
+++ b/domain/cryptography/keys/signature/adapter.go
@@ -39,5 +39,15 @@ func (app *adapter) ToSignature(sig string) (Signature, error) {
 	}
 
 	pubKey := createPublicKey(point)
-	return createSignature(pubKey, scalar)
+	out, err := createSignature(pubKey, scalar)
+	if err != nil {
+		return nil, err
+	}
+
+	// only 1 text represents a signature:
+	if out.String() != sig {
+		return nil, errors.New("the signature string is not the canonical representation of its signature")
+	}
+
+	return out, nil
 }
diff --git a/domain/cryptography/keys/signature/ringsignature_adapter.go b/domain/cryptography/keys/signature/ringsignature_adapter.go
index bf3de64..fd1fa61 100644
--- a/domain/cryptography/keys/signature/ringsignature_adapter.go
+++ b/domain/cryptography/keys/signature/ringsignature_adapter.go
@@ -71,7 +71,13 @@ func (app *ringSignatureAdapter) ToSignature(sig string) (RingSignature, error)
 		return nil, err
 	}
 
-	return createRingSignature(ring, s, e), nil
+	// only 1 text represents a ring signature:
+	out := createRingSignature(ring, s, e)
+	if out.String() != sig {
+		return nil, errors.New("the ring signature string is not the canonical representation of its ring signature")
+	}
+
+	return out, nil
 }
 
 // ToVerification verifies that the signature is valid and that it contains exactly the same publicKey hashes
-- 
2.43.0


From 411fc9567230651ee16fe54591a2a5d48adbec38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:20 +0000
Subject: [PATCH 44/57] fix: the challenges of a ring signature cover its
 members and the position, so that nobody turns it into the signature of
 another ring

---
 domain/cryptography/keys/signature/helper.go        | 10 ++++++++++
 domain/cryptography/keys/signature/privatekey.go    |  9 +++++----
 domain/cryptography/keys/signature/ringsignature.go |  4 ++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/domain/cryptography/keys/signature/helper.go b/domain/cryptography/keys/signature/helper.go
index 23f3695..478b276 100644
--- a/domain/cryptography/keys/signature/helper.go
+++ b/domain/cryptography/keys/signature/helper.go
@@ -17,6 +17,16 @@ func createHash(msg string) kyber.Scalar {
 	return curve.Scalar().SetBytes(sha256.Sum(nil))
 }
 
+// createRingHash covers the members and the position, otherwise a third party could rewrite the ring of a valid signature
+func createRingHash(ring []PublicKey, index int, msg string, point kyber.Point) kyber.Scalar {
+	str := ""
+	for _, onePubKey := range ring {
+		str = fmt.Sprintf("%s%s%s", str, onePubKey.String(), elementDelimiter)
+	}
+
+	return createHash(fmt.Sprintf("%s%s%d%s%s%s", str, delimiter, index, delimiter, msg, point.String()))
+}
+
 func genK() kyber.Scalar {
 	return curve.Scalar().Pick(curve.RandomStream())
 }
diff --git a/domain/cryptography/keys/signature/privatekey.go b/domain/cryptography/keys/signature/privatekey.go
index 1b1d90c..2706f63 100644
--- a/domain/cryptography/keys/signature/privatekey.go
+++ b/domain/cryptography/keys/signature/privatekey.go
@@ -58,18 +58,19 @@ func (app *privateKey) RingSign(msg string, ringPubKeys []PublicKey) (RingSignat
 	ss := make([]kyber.Scalar, r)
 	beginIndex := (signerIndex + 1) % r
 
-	// ei = H(m || k * G)
-	es[beginIndex] = createHash(msg + curve.Point().Mul(k, g).String())
+	// ei = H(ring || i || m || k * G)
+	es[beginIndex] = createRingHash(ringPubKeys, beginIndex, msg, curve.Point().Mul(k, g))
 
 	// loop:
 	for i := beginIndex; i != signerIndex; i = (i + 1) % r {
 		// si = random value
 		ss[i] = genK()
 
-		//eiPlus1ModR = H(m || si * G + ei * Pi)
+		//eiPlus1ModR = H(ring || iPlus1ModR || m || si * G + ei * Pi)
 		sig := curve.Point().Mul(ss[i], g)
 		eipi := curve.Point().Mul(es[i], ringPubKeys[i].Point())
-		es[(i+1)%r] = createHash(msg + curve.Point().Add(sig, eipi).String())
+		next := (i + 1) % r
+		es[next] = createRingHash(ringPubKeys, next, msg, curve.Point().Add(sig, eipi))
 
 	}
 
diff --git a/domain/cryptography/keys/signature/ringsignature.go b/domain/cryptography/keys/signature/ringsignature.go
index 94717ed..a152327 100644
--- a/domain/cryptography/keys/signature/ringsignature.go
+++ b/domain/cryptography/keys/signature/ringsignature.go
@@ -41,13 +41,13 @@ func (app *ringSignature) Verify(msg string) bool {
 	// first e:
 	e := app.e
 
-	//e = H(m || s[i] * G + e * P[i]);
+	//e = H(ring || next || m || s[i] * G + e * P[i]);
 	amount := len(app.ring)
 	for i := 0; i < amount; i++ {
 		sg := curve.Point().Mul(app.s[i], g)
 		ep := curve.Point().Mul(e, app.ring[i].Point())
 		added := curve.Point().Add(sg, ep)
-		e = createHash(msg + added.String())
+		e = createRingHash(app.ring, (i+1)%amount, msg, added)
 	}
 
 	return app.e.Equal(e)
-- 
2.43.0


From 9a34e60e4bb0caacdf89cee289ed2d70495ec219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 45/57] fix: content is digested even when it is 64 bytes long,
 so that it does not have the hash of other content

---
 domain/hash/adapter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain/hash/adapter.go b/domain/hash/adapter.go
index e6c0cc1..3c87952 100644
--- a/domain/hash/adapter.go
+++ b/domain/hash/adapter.go
@@ -33,14 +33,15 @@ func (app *adapter) FromBytes(input []byte) (*Hash, error) {
 	return &out, nil
 }
 
-// FromMultiBytes converts multiple []byte to an Hash
+// FromMultiBytes converts multiple []byte to an Hash.  What is passed is content, so it is always digested: content that is 64 bytes long is not the hash of other content
 func (app *adapter) FromMultiBytes(input [][]byte) (*Hash, error) {
 	merged := []byte{}
 	for _, oneRow := range input {
 		merged = append(merged, oneRow...)
 	}
 
-	return app.FromBytes(merged)
+	out := Hash(sha512.Sum512(merged))
+	return &out, nil
 }
 
 // FromString converts a string to an Hash
-- 
2.43.0


From 377177b0af9b44da007b997031d8ebc89ac3685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 46/57] fix: the leaves of a hashtree are digests of the
 blocks, also of those that are 64 bytes long

---
 domain/hashtree/block.go    | 2 +-
 domain/hashtree/hashtree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/hashtree/block.go b/domain/hashtree/block.go
index 6c9a088..4b08fc6 100644
--- a/domain/hashtree/block.go
+++ b/domain/hashtree/block.go
@@ -19,7 +19,7 @@ func createBlockFromData(data [][]byte) (Block, error) {
 
 	hashes := []hash.Hash{}
 	for _, oneData := range data {
-		oneHash, err := hash.NewAdapter().FromBytes(oneData)
+		oneHash, err := hash.NewAdapter().FromMultiBytes([][]byte{oneData})
 		if err != nil {
 			return nil, err
 		}
diff --git a/domain/hashtree/hashtree.go b/domain/hashtree/hashtree.go
index b228fbb..998a74b 100644
--- a/domain/hashtree/hashtree.go
+++ b/domain/hashtree/hashtree.go
@@ -64,7 +64,7 @@ func (obj *hashtree) Order(data [][]byte) ([][]byte, error) {
 	hashAdapter := hash.NewAdapter()
 	hashed := map[string][][]byte{}
 	for _, oneData := range data {
-		hsh, err := hashAdapter.FromBytes(oneData)
+		hsh, err := hashAdapter.FromMultiBytes([][]byte{oneData})
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From c8e8db709be37798092e6c77aab37706efa161c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 47/57] fix: the hashes of a genesis tell apart times that are
 centuries away

---
 domain/genesis/builder.go             | 2 +-
 domain/genesis/unitcontent_builder.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/domain/genesis/builder.go b/domain/genesis/builder.go
index e381427..e0fef8b 100644
--- a/domain/genesis/builder.go
+++ b/domain/genesis/builder.go
@@ -78,7 +78,7 @@ func (app *builder) Now() (Genesis, error) {
 	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
 		[]byte(strconv.Itoa(int(*app.fees))),
 		app.units.Hash().Bytes(),
-		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
+		[]byte(app.createdOn.UTC().Format(time.RFC3339Nano)),
 	})
 
 	if err != nil {
diff --git a/domain/genesis/unitcontent_builder.go b/domain/genesis/unitcontent_builder.go
index dac6c9f..af2ae78 100644
--- a/domain/genesis/unitcontent_builder.go
+++ b/domain/genesis/unitcontent_builder.go
@@ -86,9 +86,9 @@ func (app *unitContentBuilder) Now() (UnitContent, error) {
 	hash, err := app.hashAdapter.FromMultiBytes([][]byte{
 		[]byte(strconv.Itoa(int(app.amount))),
 		[]byte(hashDelimiter),
-		[]byte(strconv.Itoa(int(app.activatedOn.UTC().UnixNano()))),
+		[]byte(app.activatedOn.UTC().Format(time.RFC3339Nano)),
 		[]byte(hashDelimiter),
-		[]byte(strconv.Itoa(int(app.createdOn.UTC().UnixNano()))),
+		[]byte(app.createdOn.UTC().Format(time.RFC3339Nano)),
 		[]byte(hashDelimiter),
 		[]byte(app.nonce),
 	})
-- 
2.43.0


From 45c8b3b3fb6e8e8181ca88e785aa964ffb4f4b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 48/57] fix: a value builder builds what it was last given

---
 .../scripts/base/parsers/value_builder.go     | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/domain/languages/scripts/base/parsers/value_builder.go b/domain/languages/scripts/base/parsers/value_builder.go
index 7c03999..dc95fd0 100644
--- a/domain/languages/scripts/base/parsers/value_builder.go
+++ b/domain/languages/scripts/base/parsers/value_builder.go
@@ -81,53 +81,55 @@ func (app *valueBuilder) WithString(str string) ValueBuilder {
 
 // Now builds a new Value instance
 func (app *valueBuilder) Now() (Value, error) {
-	if app.typ == nil {
+	typ := app.typ
+	element := app.element
+	if typ == nil {
 		typeBuilder := app.typeBuilder.Create().WithDept(0)
 		if app.uintValue != nil {
 			flag := TypeIntegerFlag | TypeUnsignedFlag
 			typeBuilder.WithFlag(flag)
-			app.element = *app.uintValue
+			element = *app.uintValue
 		}
 
 		if app.intValue != nil {
 			flag := TypeIntegerFlag
 			typeBuilder.WithFlag(flag)
-			app.element = *app.intValue
+			element = *app.intValue
 		}
 
 		if app.floatValue != nil {
 			flag := TypeFloatFlag
 			typeBuilder.WithFlag(flag)
-			app.element = *app.floatValue
+			element = *app.floatValue
 		}
 
 		if app.boolValue != nil {
 			flag := TypeBoolFlag
 			typeBuilder.WithFlag(flag)
-			app.element = *app.boolValue
+			element = *app.boolValue
 		}
 
 		if app.str != nil {
 			flag := TypeStringFlag
 			typeBuilder.WithFlag(flag)
-			app.element = *app.str
+			element = *app.str
 		}
 
-		typ, err := typeBuilder.Now()
+		builtType, err := typeBuilder.Now()
 		if err != nil {
 			return nil, err
 		}
 
-		app.typ = typ
+		typ = builtType
 	}
 
-	if app.typ == nil {
+	if typ == nil {
 		return nil, errors.New("the type is mandatory in order to build a Value instance")
 	}
 
-	if app.element == nil {
+	if element == nil {
 		return nil, errors.New("the element is mandatory in order to build a Value instance")
 	}
 
-	return createValue(app.typ, app.element), nil
+	return createValue(typ, element), nil
 }
-- 
2.43.0


From ad33322289beddf513c433c18fe8ef0fe451a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 49/57] fix: variable declarations without any declaration are
 refused

---
 .../scripts/base/parsers/variabledeclarations_builder.go        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
index 2f27638..4ae6466 100644
--- a/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
+++ b/domain/languages/scripts/base/parsers/variabledeclarations_builder.go
@@ -27,7 +27,7 @@ func (app *variableDeclarationsBuilder) WithDeclarations(declarations []Variable
 
 // Now builds a new VariableDeclarations instance
 func (app *variableDeclarationsBuilder) Now() (VariableDeclarations, error) {
-	if app.list == nil && len(app.list) <= 0 {
+	if app.list != nil && len(app.list) <= 0 {
 		app.list = nil
 	}
 
-- 
2.43.0


From 56aca065633b1ebacf9cb423af0b3a8d919f5d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 50/57] fix: a reversed serie that is written apart from its
 sign is reversed

---
 domain/languages/lexers/containers/patterns/adapter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/patterns/adapter.go b/domain/languages/lexers/containers/patterns/adapter.go
index 489e400..cc479bc 100644
--- a/domain/languages/lexers/containers/patterns/adapter.go
+++ b/domain/languages/lexers/containers/patterns/adapter.go
@@ -375,7 +375,7 @@ func (app *adapter) findPatterns(series map[string]Serie, content string) (Patte
 	pattern := regexp.MustCompile(patternStr)
 	matches := pattern.FindAllStringSubmatch(content, -1)
 	for _, oneMatch := range matches {
-		choicePatternStr := fmt.Sprintf("(%s)?%s", app.reversePrefix, app.serieNamePattern)
+		choicePatternStr := fmt.Sprintf("(%s%s)?%s", app.reversePrefix, app.whiteSpacePattern, app.serieNamePattern)
 		choiceNamePattern := regexp.MustCompile(choicePatternStr)
 		choiceNames := choiceNamePattern.FindAllString(oneMatch[2], -1)
 		if len(choiceNames) <= 0 {
@@ -386,7 +386,7 @@ func (app *adapter) findPatterns(series map[string]Serie, content string) (Patte
 		for _, oneChoiceName := range choiceNames {
 			isReverse := strings.HasPrefix(oneChoiceName, app.reversePrefix)
 			if isReverse {
-				oneChoiceName = oneChoiceName[1:]
+				oneChoiceName = strings.TrimSpace(oneChoiceName[1:])
 			}
 
 			if _, ok := series[oneChoiceName]; !ok {
-- 
2.43.0


From 505d6e991d47243b4a11d788b459b923019dc1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 51/57] fix: the rule """ is a quotation mark, not an empty
 constant

---
 domain/languages/lexers/containers/rules/adapter.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index 8f56d5c..a29050a 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -126,10 +126,9 @@ func (app *adapter) rulesList(content string, patterns patterns.Patterns) ([]Rul
 func (app *adapter) element(ruleName string, content string, patterns patterns.Patterns) (Element, error) {
 	anythingExceptConstantDelimiter := fmt.Sprintf(app.anythingExcept, app.contentDelimiter)
 	patternStr := fmt.Sprintf(
-		"(%s)?(%s(%s)%s)?",
+		"(?s)(%s)?(%s(.*)%s)?",
 		anythingExceptConstantDelimiter,
 		app.contentDelimiter,
-		anythingExceptConstantDelimiter,
 		app.contentDelimiter,
 	)
 
-- 
2.43.0


From 4f0416d12b98636b0b07287e4a828bb24b5b2126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 52/57] fix: a rule without a constant nor a pattern is refused
 instead of crashing when it is used

---
 domain/languages/lexers/containers/rules/content_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/domain/languages/lexers/containers/rules/content_builder.go b/domain/languages/lexers/containers/rules/content_builder.go
index ac78b20..b3a90aa 100644
--- a/domain/languages/lexers/containers/rules/content_builder.go
+++ b/domain/languages/lexers/containers/rules/content_builder.go
@@ -1,5 +1,7 @@
 package rules
 
+import "errors"
+
 type contentBuilder struct {
 	constant string
 	pattern  Pattern
@@ -37,5 +39,9 @@ func (app *contentBuilder) Now() (Content, error) {
 		return createContentWithPattern(app.pattern), nil
 	}
 
+	if app.constant == "" {
+		return nil, errors.New("the constant or the pattern is mandatory in order to build a Content instance")
+	}
+
 	return createContentWithConstant(app.constant), nil
 }
-- 
2.43.0


From d5f1bf8a71e29ec6a20868893d61e2c59149c9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 53/57] fix: a rule with spaces before its colon was dropped,
 and one with other spaces between its patterns refused

---
 domain/languages/lexers/containers/rules/adapter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/domain/languages/lexers/containers/rules/adapter.go b/domain/languages/lexers/containers/rules/adapter.go
index a29050a..ca199e1 100644
--- a/domain/languages/lexers/containers/rules/adapter.go
+++ b/domain/languages/lexers/containers/rules/adapter.go
@@ -95,8 +95,9 @@ func (app *adapter) rulesList(content string, patterns patterns.Patterns) ([]Rul
 	// find the rules:
 	anythingExceptionEnd := fmt.Sprintf(app.anythingExcept, app.end)
 	patternStr := fmt.Sprintf(
-		"(%s)%s(%s)%s",
+		"(%s)%s%s(%s)%s",
 		app.rulePattern,
+		app.whiteSpacePattern,
 		app.begin,
 		anythingExceptionEnd,
 		app.end,
@@ -193,7 +194,7 @@ func (app *adapter) pattern(ruleName string, content string, ptrns patterns.Patt
 	}
 
 	list := []patterns.Pattern{}
-	patternNames := strings.Split(matches[1], app.space)
+	patternNames := strings.Fields(matches[1])
 	for _, onePattern := range patternNames {
 		if ptrns == nil {
 			str := fmt.Sprintf("the rule (name: %s) contains a pattern (name: %s) that is not defined", ruleName, onePattern)
-- 
2.43.0


From 4a438d39331916d801326bc779aa27c1c9545b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:42 +0000
Subject: [PATCH 54/57] fix: the dot of a reference matched any character

---
 domain/languages/lexers/references/sdk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/domain/languages/lexers/references/sdk.go b/domain/languages/lexers/references/sdk.go
index 6f22a97..d30ad25 100644
--- a/domain/languages/lexers/references/sdk.go
+++ b/domain/languages/lexers/references/sdk.go
@@ -16,7 +16,7 @@ func NewAdapter() Adapter {
 	referenceKeyword := "\\breference[ \t\r\n]+"
 	replacementKeyword := "\\breplace[ \t\r\n]+"
 	quoteChar := "\""
-	dotChar := "."
+	dotChar := "[ \t\r\n]*\\.[ \t\r\n]*"
 	tokenPattern := "[a-z]{1}[a-zA-Z]*"
 	anythingExcept := "[^%s]*"
 	spacePattern := "[ \t\r\n]*"
-- 
2.43.0


From a25bb75f50f4b74407ef25cf875eb84cfe94ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:55 +0000
Subject: [PATCH 55/57] fix: a match of a line, and a block match of a next
 element, have a text instead of crashing

---
 .../languages/lexers/asts/tokens/blockmatch.go   | 12 ++++++++----
 domain/languages/lexers/asts/tokens/match.go     | 16 ++++++++++++++++
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/domain/languages/lexers/asts/tokens/blockmatch.go b/domain/languages/lexers/asts/tokens/blockmatch.go
index d48d6f7..a8e4b1a 100644
--- a/domain/languages/lexers/asts/tokens/blockmatch.go
+++ b/domain/languages/lexers/asts/tokens/blockmatch.go
@@ -47,10 +47,14 @@ func (obj *blockMatch) Input() string {
 		}, "")
 	}
 
-	return strings.Join([]string{
-		prefix,
-		content.Block().Input(),
-	}, "")
+	if content.IsBlock() {
+		return strings.Join([]string{
+			prefix,
+			content.Block().Input(),
+		}, "")
+	}
+
+	return prefix
 }
 
 // IsValid returns true if the blockMatch is valid, false otherwise
diff --git a/domain/languages/lexers/asts/tokens/match.go b/domain/languages/lexers/asts/tokens/match.go
index bc7bd30..55fb9c3 100644
--- a/domain/languages/lexers/asts/tokens/match.go
+++ b/domain/languages/lexers/asts/tokens/match.go
@@ -24,6 +24,10 @@ func (obj *match) Input() string {
 		return obj.content.Token().Result().Input()
 	}
 
+	if obj.content.IsLine() {
+		return obj.content.Line().Matches().Input()
+	}
+
 	return obj.content.Skip().Input()
 }
 
@@ -37,6 +41,10 @@ func (obj *match) Discoveries() string {
 		return obj.content.Token().Result().Discoveries()
 	}
 
+	if obj.content.IsLine() {
+		return obj.content.Line().Matches().Discoveries()
+	}
+
 	// skip has always no discoveries:
 	return ""
 }
@@ -51,6 +59,10 @@ func (obj *match) IsValid() bool {
 		return obj.content.Token().IsValid()
 	}
 
+	if obj.content.IsLine() {
+		return obj.content.Line().Matches().IsValid()
+	}
+
 	// skip is always valid:
 	return true
 }
@@ -65,6 +77,10 @@ func (obj *match) IsExact() bool {
 		return obj.content.Token().IsExact()
 	}
 
+	if obj.content.IsLine() {
+		return obj.content.Line().Matches().IsExact()
+	}
+
 	// skip is always exact:
 	return true
 }
-- 
2.43.0


From bfa4e2d2af0248e88c1e31130aa88d17bc724506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:24 +0000
Subject: [PATCH 56/57] fix: a text with a legal prefix lost elements of its
 root, or read characters twice

---
 domain/languages/lexers/asts/adapter.go       |  3 +-
 .../languages/lexers/asts/tokens/adapter.go   | 39 +++++++++++++------
 2 files changed, 29 insertions(+), 13 deletions(-)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index 4e86616..cdb68e1 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -61,7 +61,8 @@ func (app *adapter) ToAST(script string) (AST, error) {
 		return nil, err
 	}
 
-	mistake, err := app.mistakeAdapter.ToMistake(astToken, app.canContainPrefix)
+	// the prefix that is legal was skipped already:
+	mistake, err := app.mistakeAdapter.ToMistake(astToken, false)
 	if err != nil {
 		return nil, err
 	}
diff --git a/domain/languages/lexers/asts/tokens/adapter.go b/domain/languages/lexers/asts/tokens/adapter.go
index 247dac7..439e8e4 100644
--- a/domain/languages/lexers/asts/tokens/adapter.go
+++ b/domain/languages/lexers/asts/tokens/adapter.go
@@ -198,6 +198,31 @@ func createAdapterInternally(
 
 // ToToken converts a script to a Token instance
 func (app *adapter) ToToken(script string) (Token, error) {
+	token, err := app.scriptToToken(script)
+	if err != nil {
+		return nil, err
+	}
+
+	if token.IsValid() || !app.canContainPrefix {
+		return token, nil
+	}
+
+	// the prefix ends where the token first matches:
+	for index := 1; index < len(script); index++ {
+		afterPrefix, err := app.scriptToToken(script[index:])
+		if err != nil {
+			return nil, err
+		}
+
+		if afterPrefix.IsValid() {
+			return afterPrefix, nil
+		}
+	}
+
+	return token, nil
+}
+
+func (app *adapter) scriptToToken(script string) (Token, error) {
 	app.recursiveTokens = map[string]string{}
 	return app.elementToToken(app.rootPath.Element(), app.rootPath.Dependencies(), script, true)
 }
@@ -782,7 +807,6 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 	remaining := script
 	rule := rulePath.Base()
 	list := []results.Result{}
-	canContainPrefix := app.canContainPrefix && chansAreActivated
 	_, pMax := rulePath.Cardinality().Delimiter()
 	for {
 		res, err := app.resultAdapter.ToResult(rule, remaining)
@@ -802,10 +826,7 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 
 		list = append(list, res)
 		if index > 0 {
-			app.canContainPrefix = false
-			if !canContainPrefix {
-				break
-			}
+			break
 		}
 
 		contentLength := len(res.Content())
@@ -826,11 +847,5 @@ func (app *adapter) ruleToRuleMatch(rulePath paths.Rule, script string, chansAre
 		return nil, err
 	}
 
-	builder := app.ruleMatchBuilder.Create().WithRule(rulePath).WithResult(ruleMatchResult)
-	if app.canContainPrefix && chansAreActivated {
-		builder.CanContainPrefix()
-		//app.canContainPrefix = false
-	}
-
-	return builder.Now()
+	return app.ruleMatchBuilder.Create().WithRule(rulePath).WithResult(ruleMatchResult).Now()
 }
-- 
2.43.0


From f0effeb825f989de3b427654541e1ccd4e78a7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:24 +0000
Subject: [PATCH 57/57] fix: the input of a rule in a derivation was the code
 of the rule, its suffix what was read

---
 domain/languages/lexers/asts/adapter.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/domain/languages/lexers/asts/adapter.go b/domain/languages/lexers/asts/adapter.go
index cdb68e1..786bef4 100644
--- a/domain/languages/lexers/asts/adapter.go
+++ b/domain/languages/lexers/asts/adapter.go
@@ -226,8 +226,7 @@ func (app *adapter) tokenMatch(tokenMatch ast_tokens.TokenMatch) (TokenMatch, er
 func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error) {
 	name := ruleMatch.Rule().Base().Name()
 	astResult := ruleMatch.Result().Result()
-	input := ruleMatch.Result().Path().Base().Code()
-	result, err := app.ruleResult(name, astResult, input)
+	result, err := app.ruleResult(name, astResult)
 	if err != nil {
 		return nil, err
 	}
@@ -239,16 +238,17 @@ func (app *adapter) ruleMatch(ruleMatch ast_tokens.RuleMatch) (RuleMatch, error)
 	return app.ruleMatchBuilder.Create().WithRule(name).WithResult(result).Now()
 }
 
-func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input string) (Result, error) {
+func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result) (Result, error) {
 	if !ruleResult.HasResults() {
 		return nil, nil
 	}
 
+	input := ""
 	firstIndex := uint(0)
 	results := ruleResult.Results()
 	discoveriesContent := ruleResult.Discoveries()
 	discoveriesList := []patterns.Discovery{}
-	for _, oneResult := range results {
+	for resultIdx, oneResult := range results {
 		if !oneResult.HasMatches() {
 			break
 		}
@@ -258,7 +258,9 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 			oneDiscoveries := oneMatch.Discoveries()
 			discoveriesList = append(discoveriesList, oneDiscoveries.All()...)
 
-			if idx <= 0 {
+			// the input is the text where the rule was read, its first match begins there:
+			if resultIdx <= 0 && idx <= 0 {
+				input = oneMatch.Input()
 				firstIndex = oneMatch.Discoveries().Index()
 			}
 		}
@@ -281,7 +283,7 @@ func (app *adapter) ruleResult(rule string, ruleResult ast_tokens.Result, input
 	inputLength := uint(len(input))
 	contentWithPrefixLength := firstIndex + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
@@ -315,7 +317,7 @@ func (app *adapter) results(rule string, results ast_results.Result) (Result, er
 	inputLength := uint(len(input))
 	contentWithPrefixLength := index + uint(len(discoveriesContent))
 	if contentWithPrefixLength < inputLength {
-		builder.WithSuffix(input[:contentWithPrefixLength])
+		builder.WithSuffix(input[contentWithPrefixLength:])
 	}
 
 	return builder.Now()
-- 
2.43.0

