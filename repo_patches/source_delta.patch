From d904a189dcf0896c2bbd929f65f195a1ba1285e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:00 +0000
Subject: [PATCH 01/18] fix: multisig verification counted one key several
 times

An m-of-n input was accepted when a single key's signature was repeated:
the search for the next signature restarted at a key that had already
matched.
---
 bitcoincashTransaction/transaction.go | 4 +++-
 bitcoinsvTransaction/transaction.go   | 4 +++-
 btcTransaction/transaction.go         | 4 +++-
 cxcTransaction/transaction.go         | 4 +++-
 hcTransaction/transaction.go          | 4 +++-
 omniTransaction/transaction.go        | 4 +++-
 zencashTransaction/transaction.go     | 4 +++-
 7 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 4513070..eafd843 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -231,11 +231,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 1eeb0a7..6a7dbc8 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -231,11 +231,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 09586d4..99d1684 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -217,11 +217,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2f2d266..6f63b63 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -236,11 +236,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 10922cb..ccc8d42 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -217,11 +217,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c3f007a..c2537e3 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -214,11 +214,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 7c7f156..b7d13f0 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -172,11 +172,13 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 			}
 		} else {
 			count := 0
+			next := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
+				for j := next; j < len(t.Multi); j++ {
 					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
 					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
 						count++
+						next = j + 1
 						break
 					}
 				}
-- 
2.43.0


From 5c4c80130cd8ee4758aab4acbd9af22679e84dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:00 +0000
Subject: [PATCH 02/18] fix: bytom multisig verification counted one key
 several times

---
 bytomTransaction/transaction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index c1d3371..a2026c4 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -183,10 +183,13 @@ func VerifyRawTransaction(txHex string) bool {
 				return false
 			}
 			count := 0
+			next := 0
 			for j := 0; j < len(sigs); j++ {
-				for k := j; k < len(pubs); k++ {
+				for k := next; k < len(pubs); k++ {
 					if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[j], owcrypt.ECC_CURVE_ED25519_NORMAL) {
 						count++
+						next = k + 1
+						break
 					}
 				}
 			}
-- 
2.43.0


From 99dacddd5abaf2a6db9064fe1e5c9bf69221fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:25 +0000
Subject: [PATCH 03/18] fix: verification accepted a transaction without any
 signature (elastos, ontology, mateverse)

---
 elastosTransaction/transaction.go   | 3 +++
 mateverseTransaction/transaction.go | 3 +++
 ontologyTransaction/transaction.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index f76d156..8c4a09b 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -65,6 +65,9 @@ func SignRawTransaction(hash string, privateKey []byte) ([]byte, error) {
 }
 
 func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool, string) {
+	if len(sigPubs) == 0 {
+		return false, ""
+	}
 
 	txBytes, err := hex.DecodeString(emptyTrans)
 	if err != nil {
diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 6dd9341..aaf6bef 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -74,6 +74,9 @@ func SignTransaction(hash string, prikey []byte) (string, error) {
 }
 
 func VerifyAndCombineTransaction(emptyTrans string, inputs []*TxInput) (bool, string) {
+	if len(inputs) == 0 {
+		return false, ""
+	}
 
 	for _, input := range inputs {
 		if !verifyTransactionHash(input.pubkey, input.hash, input.signature) {
diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index cd77e3f..818c243 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -87,6 +87,9 @@ func SignRawTransactionHash(txHash string, prikey []byte) (*SigPub, error) {
 
 func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, string, error) {
 	var sigData SigData
+	if len(sigpub) == 0 {
+		return false, "", errors.New("No signature found!")
+	}
 	txBytes, err := hex.DecodeString(emptyTrans)
 	if err != nil {
 		return false, "", errors.New("Invalid transaction hex data!")
-- 
2.43.0


From b8701fd335fbb6515d7130366be9c6663acad9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:49 +0000
Subject: [PATCH 04/18] fix: reading a transaction id reversed the stored id in
 place

---
 bigbangTransaction/txUtils.go     | 2 +-
 bitcoincashTransaction/txUtils.go | 2 +-
 bitcoinsvTransaction/txUtils.go   | 2 +-
 btcLikeTxDriver/utils.go          | 2 +-
 btcTransaction/txUtils.go         | 2 +-
 cxcTransaction/txUtils.go         | 2 +-
 hcTransaction/txUtils.go          | 2 +-
 hypercashTransaction/txUtils.go   | 2 +-
 mateverseTransaction/txUtils.go   | 2 +-
 omniTransaction/txUtils.go        | 2 +-
 ontologyTransaction/txUtils.go    | 2 +-
 zencashTransaction/txUtils.go     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bigbangTransaction/txUtils.go b/bigbangTransaction/txUtils.go
index 833e89c..3d93928 100644
--- a/bigbangTransaction/txUtils.go
+++ b/bigbangTransaction/txUtils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index bd720a6..9e7a7c5 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index e5af84f..bbc3217 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 3fc84d4..120af24 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint32ToLittleEndianBytes
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 141260c..51ade1f 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 1d2b04b..176ba4e 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index ea4dc67..5c10266 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hypercashTransaction/txUtils.go b/hypercashTransaction/txUtils.go
index 075a6bb..3f68709 100644
--- a/hypercashTransaction/txUtils.go
+++ b/hypercashTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 func uint16ToBigEndianBytes(data uint16) []byte {
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 21d8dd7..9d50377 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -41,7 +41,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 0b571a3..2cfe632 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/ontologyTransaction/txUtils.go b/ontologyTransaction/txUtils.go
index c4b23f3..b6de0a0 100644
--- a/ontologyTransaction/txUtils.go
+++ b/ontologyTransaction/txUtils.go
@@ -29,7 +29,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index cfbdb71..6ce82e7 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
-- 
2.43.0


From b215e7a8ad88913690f8bc92d12aa94740c05b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:49 +0000
Subject: [PATCH 05/18] fix: building a transaction modified the caller's
 arguments (polkadot, filenet, cosmos, evaio)

---
 cosmosTransaction/txStruct.go  | 7 ++++---
 evaioTransaction/txStruct.go   | 7 ++++---
 filenetTransaction/txStruct.go | 1 +
 polkadotTransaction/codec.go   | 2 ++
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index 85e803a..8aebb8b 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -12,13 +12,14 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	txFee := *fee
+	if txFee.Amount[0].Amount == "" {
+		txFee.Amount = Coins{}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           txFee,
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index 7cbfcae..b37ff40 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -12,13 +12,14 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	txFee := *fee
+	if txFee.Amount[0].Amount == "" {
+		txFee.Amount = Coins{}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           txFee,
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index e1283e2..cfaf712 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -45,6 +45,7 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 
 	trans.ToCount = uint64ToLittleEndianBytes(uint64(outCount))
 
+	outs = append(Vouts{}, outs...)
 	sort.Sort(outs)
 
 	totleAmount := uint64(0)
diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index edd827e..adcb57c 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -23,6 +23,7 @@ func ExtendLEBytes(input []byte, length int) []byte {
 	if diff == 0 {
 		return input
 	}
+	input = append([]byte{}, input...)
 	for i := 0; i < diff; i++ {
 		input = append(input, 0)
 	}
@@ -67,6 +68,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 			mode = twoByteMode
 		}
 
+		bytes = append([]byte{}, bytes...)
 		var nextRepl byte
 		for i := range bytes {
 			repl := bytes[i] & 192
-- 
2.43.0


From d7950fa460c068634bb8799b42c3f15954d2745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:49 +0000
Subject: [PATCH 06/18] fix: address and transaction encoders wrote into spare
 capacity of the caller's slices

---
 addressEncoder/addressEncoder.go              | 4 ++--
 addressEncoder/base32PolyMod/base32PolyMod.go | 2 +-
 addressEncoder/bech32/bech32.go               | 2 +-
 addressEncoder/bech32m/bech32m.go             | 2 +-
 bigbangTransaction/txIn.go                    | 2 +-
 bitcoincashTransaction/base58.go              | 2 +-
 bitcoinsvTransaction/base58.go                | 2 +-
 btcLikeTxDriver/bech32.go                     | 2 +-
 btcTransaction/base58.go                      | 2 +-
 btcTransaction/bech32.go                      | 2 +-
 bytomTransaction/bech32.go                    | 2 +-
 cosmosTransaction/bech32.go                   | 2 +-
 cxcTransaction/base58.go                      | 2 +-
 cxcTransaction/bech32.go                      | 2 +-
 elastosTransaction/base58.go                  | 2 +-
 evaioTransaction/bech32.go                    | 2 +-
 fiiiTransaction/base58.go                     | 2 +-
 hcTransaction/base58.go                       | 2 +-
 hcTransaction/bech32.go                       | 2 +-
 hypercashTransaction/base58.go                | 2 +-
 omniTransaction/base58.go                     | 2 +-
 omniTransaction/bech32.go                     | 2 +-
 owkeychain/owencode.go                        | 3 ++-
 vollarTransaction/base58.go                   | 2 +-
 waykichainTransaction/base58.go               | 2 +-
 zencashTransaction/base58.go                  | 2 +-
 zencashTransaction/bech32.go                  | 2 +-
 27 files changed, 29 insertions(+), 28 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8f279da..10673ef 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -73,7 +73,7 @@ func catData(data1 []byte, data2 []byte) []byte {
 	if data2 == nil {
 		return data1
 	}
-	return append(data1, data2...)
+	return append(append([]byte{}, data1...), data2...)
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
@@ -200,7 +200,7 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 			}
 		}
 		//addPrefixHash = Prefix||hash=prxfix || public sepend key||public view key(65-byte)
-		addPrefixHash := append(addresstype.Prefix, hash...)
+		addPrefixHash := append(append([]byte{}, addresstype.Prefix...), hash...)
 		//checksum is the first four bytes of keccak256(addPrefixHash)
 		checksum := owcrypt.Hash(addPrefixHash, 32, owcrypt.HASH_ALG_KECCAK256)[:4]
 		//Suffix checksum addPrefixHash(69-byte)
diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index ffa3e92..f9f7ce2 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -23,7 +23,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index cb0bcd6..1c20353 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -28,7 +28,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e4d2d83..e429615 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -81,7 +81,7 @@ func createChecksum(hrp string, data []byte, spec int) []byte {
 
 // Encode compute a Bech32 string given HRP and data values.
 func Encode(hrp string, data []byte, spec int, charset string) string {
-	combined := append(data, createChecksum(hrp, data, spec)...)
+	combined := append(append([]byte{}, data...), createChecksum(hrp, data, spec)...)
 	var ret bytes.Buffer
 	ret.WriteString(hrp)
 	ret.WriteString("1")
diff --git a/bigbangTransaction/txIn.go b/bigbangTransaction/txIn.go
index 62fa5ba..545019c 100644
--- a/bigbangTransaction/txIn.go
+++ b/bigbangTransaction/txIn.go
@@ -24,5 +24,5 @@ func NewTxIn(txid string, vout byte) (*TxIn, error) {
 }
 
 func (id TxIn) ToBytes() []byte {
-	return append(id.TxID, id.Vout)
+	return append(append([]byte{}, id.TxID...), id.Vout)
 }
diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index d518067..1b27f7c 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index af85206..fe83b56 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 828b11c..9ff3355 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -22,7 +22,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 96f8fe2..0e8fef8 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 61bcae7..640c323 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -23,7 +23,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/bytomTransaction/bech32.go b/bytomTransaction/bech32.go
index eb15aaf..da51dfd 100644
--- a/bytomTransaction/bech32.go
+++ b/bytomTransaction/bech32.go
@@ -83,7 +83,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte{}, data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 91d2afd..7f34785 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -23,7 +23,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index ccd7ea2..7bd4247 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 530a591..ca9e08c 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -23,7 +23,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 04054e6..1281cfb 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index f594278..e41553c 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -23,7 +23,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index 2226867..b92d477 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -176,7 +176,7 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 772572c..c312e6f 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index b6cb6e8..ccbd713 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -23,7 +23,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 020220b..e178da0 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(owcrypt.Hash(data, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index b080ce9..3639fc2 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 640b491..2059366 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -23,7 +23,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index cdab5af..7071272 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -23,7 +23,8 @@ func Base58checkEncode(data []byte, fix []byte) string {
 	hash = ctx.Sum(nil)
 
 	fix_value := []byte{}
-	fix_value = append(fix, data...)
+	fix_value = append(fix_value, fix...)
+	fix_value = append(fix_value, data...)
 	fix_value = append(fix_value, hash[:4]...)
 
 	return Encode(fix_value[:], BitcoinAlphabet)
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 786201c..67ebb9a 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 80d3f60..e0c9805 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 25b462c..eb1ee66 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -167,7 +167,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index c11aebd..3b5aecd 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -23,7 +23,7 @@ var (
 )
 
 func catBytes(data1 []int8, data2 []int8) []int8 {
-	return append(data1, data2...)
+	return append(append([]int8{}, data1...), data2...)
 }
 
 func expandPrefix(prefix string) []int8 {
-- 
2.43.0


From da92d119e466290d5da73a2035a45f941d4c5fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:58 +0000
Subject: [PATCH 07/18] fix: btcLike signing, insertion, verification and
 decoding changed the caller's unlock data and raw transaction

---
 btcLikeTxDriver/transaction.go | 4 ++++
 btcLikeTxDriver/txStruct.go    | 1 +
 btcLikeTxDriver/witness.go     | 2 +-
 3 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e82938e..553f3ce 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -174,6 +174,8 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	unlockData = append([]TxUnlock{}, unlockData...)
+
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
@@ -249,6 +251,8 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 		return false
 	}
 
+	unlockData = append([]TxUnlock{}, unlockData...)
+
 	var sigAndPub []SignaturePubkey
 	if signedTrans.Witness == nil {
 		for _, sp := range signedTrans.Vins {
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6cad74c..dbb7240 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -393,6 +393,7 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 		return nil, errors.New("The number of Keys and UTXOs are not match!")
 	}
 
+	unlockData = append([]TxUnlock{}, unlockData...)
 	for i := 0; i < len(unlockData); i++ {
 		sigBytes := []byte{}
 		for j := 0; j < len(unlockData); j++ {
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index 36d9a11..f7ce19f 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -63,7 +63,7 @@ func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
 		index++
 	}
 
-	ret.Signature = script[index : index+32]
+	ret.Signature = append([]byte{}, script[index:index+32]...)
 	index += 32
 
 	if script[index] != 0x02 {
-- 
2.43.0


From 663d917446bd086f3d488ea4ce57cf636df33057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:27 +0000
Subject: [PATCH 08/18] fix: inserting signatures reported success with an
 empty transaction for invalid scripts

---
 bitcoincashTransaction/transaction.go | 4 ++--
 bitcoinsvTransaction/transaction.go   | 4 ++--
 btcTransaction/transaction.go         | 4 ++--
 cxcTransaction/transaction.go         | 4 ++--
 hcTransaction/transaction.go          | 4 ++--
 omniTransaction/transaction.go        | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index eafd843..adcb00a 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -111,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +121,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 6a7dbc8..e2f9c9d 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -111,7 +111,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +121,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 99d1684..707b322 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -97,7 +97,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +107,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 6f63b63..2719be3 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -116,7 +116,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -126,7 +126,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index ccc8d42..9de0e8a 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -97,7 +97,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +107,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c2537e3..deea375 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -94,7 +94,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !false {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -104,7 +104,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
-- 
2.43.0


From ce99d4a723c2334c6a1fb1800e1eb67d765a30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:28 +0000
Subject: [PATCH 09/18] fix: malformed input was silently replaced by an empty
 or partial value (polkadot, ontology, waykichain, ripple, btcLike,
 virtualeconomy, zencash, aliencoin, verge, mateverse, addressEncoder)

---
 addressEncoder/addressEncoder.go         |  2 +-
 aliencoinTransaction/txStruct.go         |  5 ++++-
 btcLikeTxDriver/txStruct.go              |  5 ++++-
 mateverseTransaction/transaction.go      |  5 ++++-
 mateverseTransaction/txIn.go             | 14 ++++++++++----
 ontologyTransaction/transaction.go       |  9 +++++++++
 polkadotTransaction/transaction.go       |  5 ++++-
 polkadotTransaction/txMethod.go          |  5 ++++-
 polkadotTransaction/txStruct.go          |  4 ++--
 rippleTransaction/transaction.go         |  5 ++++-
 vergeTransaction/txStruct.go             |  5 ++++-
 virtualeconomyTransaction/transaction.go |  5 ++++-
 waykichainTransaction/txStruct.go        | 20 ++++++++++++++++----
 zencashTransaction/txHash.go             |  5 ++++-
 14 files changed, 74 insertions(+), 20 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 10673ef..d6ce951 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -123,7 +123,7 @@ func decodeData(data, encodeType, alphabet, checkType string, prefix, suffix []b
 		}
 		return recoverData(ret[:len(ret)-4], prefix, suffix)
 	}
-	return nil, nil
+	return nil, ErrorInvalidAddress
 }
 
 func calcHash(data []byte, hashType string) []byte {
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 5847351..1e72d05 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -186,7 +186,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil {
+			return nil, nil, errors.New("invalid transaction data!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index dbb7240..ee0b24b 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -266,7 +266,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 				if index+int(length)+1+34 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
-				witness, _ := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				witness, err := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				if err != nil {
+					return nil, err
+				}
 				rawTx.Witness = append(rawTx.Witness, *witness)
 
 				index += int(length) + 1 + 34
diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index aaf6bef..0447222 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -43,7 +43,10 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 		if err != nil || len(input.txID) != 64 {
 			return errors.New("Invalid txid!")
 		}
-		hashBytes := getHashCalcBytes(*inputs, i)
+		hashBytes, err := getHashCalcBytes(*inputs, i)
+		if err != nil {
+			return err
+		}
 
 		hashBytes = append(hashBytes, trans[inputsEnd:]...)
 		hashBytes = append(hashBytes, uint32ToLittleEndianBytes(SigHashAll)...)
diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 7747b42..6612e0f 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -137,7 +137,7 @@ func getHashFromLockScript(script string) string {
 	return script
 }
 
-func getHashCalcBytes(inputs []*TxInput, index int) []byte {
+func getHashCalcBytes(inputs []*TxInput, index int) ([]byte, error) {
 	tx := make([]byte, 0)
 
 	tx = append(tx, uint32ToLittleEndianBytes(DefaultTxVersion)...)
@@ -149,11 +149,17 @@ func getHashCalcBytes(inputs []*TxInput, index int) []byte {
 	}
 
 	for i, input := range inputs {
-		txid, _ := reverseHexToBytes(input.txID)
+		txid, err := reverseHexToBytes(input.txID)
+		if err != nil {
+			return nil, errors.New("Invalid txid!")
+		}
 		tx = append(tx, txid...)
 		tx = append(tx, uint32ToLittleEndianBytes(input.vout)...)
 		if i == index {
-			lockScript, _ := hex.DecodeString(input.lockScript)
+			lockScript, err := hex.DecodeString(input.lockScript)
+			if err != nil {
+				return nil, errors.New("Invalid lock script!")
+			}
 			tx = append(tx, byte(len(lockScript)))
 			tx = append(tx, lockScript...)
 		} else {
@@ -161,7 +167,7 @@ func getHashCalcBytes(inputs []*TxInput, index int) []byte {
 		}
 		tx = append(tx, uint32ToLittleEndianBytes(input.sequence)...)
 	}
-	return tx
+	return tx, nil
 }
 
 func getSubmitBytes(inputs []*TxInput, emptyTrans string) []byte {
diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index 818c243..905f5c7 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -36,6 +36,9 @@ func CreateRawTransactionAndHash(gasPrice, gasLimit uint64, txState TxState) (st
 	}
 	randNounce := make([]byte, 4)
 	_, err = rand.Read(randNounce[:])
+	if err != nil {
+		return "", nil, err
+	}
 
 	txBytes, err := NewEmptyTransaction(txState.AssetType, TxTypeInvoke, littleEndianBytesToUint32(randNounce), gasPrice, gasLimit, txState.Payer, payLoad).ToBytes()
 	if err != nil {
@@ -62,6 +65,9 @@ func CreateRawTransactionAndHashV2(gasPrice, gasLimit uint64, txState TxStateV2)
 	}
 	randNounce := make([]byte, 4)
 	_, err = rand.Read(randNounce[:])
+	if err != nil {
+		return "", nil, err
+	}
 
 	txBytes, err := NewEmptyTransaction(txState.AssetType, TxTypeInvoke, littleEndianBytesToUint32(randNounce), gasPrice, gasLimit, txState.Payer, payLoad).ToBytes()
 	if err != nil {
@@ -111,5 +117,8 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	tx.SigDatas = append(tx.SigDatas, sigData)
 
 	signedTx, err := tx.ToBytes()
+	if err != nil {
+		return false, "", err
+	}
 	return true, hex.EncodeToString(signedTx), nil
 }
diff --git a/polkadotTransaction/transaction.go b/polkadotTransaction/transaction.go
index 7d306f0..9aa9330 100644
--- a/polkadotTransaction/transaction.go
+++ b/polkadotTransaction/transaction.go
@@ -47,7 +47,10 @@ func VerifyAndCombineTransaction(transferCode, emptyTrans, signature string) (st
 
 	msg, _ := hex.DecodeString(tp.ToBytesString())
 
-	pubkey, _ := hex.DecodeString(ts.SenderPubkey)
+	pubkey, err := hex.DecodeString(ts.SenderPubkey)
+	if err != nil {
+		return "", false
+	}
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64{
diff --git a/polkadotTransaction/txMethod.go b/polkadotTransaction/txMethod.go
index cc85c5c..d6bc2c7 100644
--- a/polkadotTransaction/txMethod.go
+++ b/polkadotTransaction/txMethod.go
@@ -38,7 +38,10 @@ func (mt MethodTransfer) ToBytes(transferCode string) ([]byte, error) {
 		return nil, errors.New("invalid method")
 	}
 
-	ret, _ := hex.DecodeString(transferCode)
+	ret, err := hex.DecodeString(transferCode)
+	if err != nil {
+		return nil, errors.New("invalid transfer code")
+	}
 	if AccounntIDFollow {
 		ret = append(ret, 0xff)
 	}
diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 8f4a389..826ab5b 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -115,7 +115,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	from, err := hex.DecodeString(ts.SenderPubkey)
 	if err != nil || len(from) != 32 {
-		return "", nil
+		return "", errors.New("invalid sender public key")
 	}
 
 	signed = append(signed, from...)
@@ -124,7 +124,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64 {
-		return "", nil
+		return "", errors.New("invalid signature")
 	}
 	signed = append(signed, sig...)
 
diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 7635b80..6820ba7 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -45,6 +45,9 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	txnSignature, _ := getTxnSignatureBytes(signature)
+	txnSignature, err := getTxnSignatureBytes(signature)
+	if err != nil {
+		return false, ""
+	}
 	return true, strings.Replace(emptyTrans, "s", hex.EncodeToString(txnSignature), -1)
 }
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 08f324f..e3008a3 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -199,7 +199,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil {
+			return nil, nil, errors.New("invalid transaction data!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index fb0cf1b..ff53d30 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -68,7 +68,10 @@ func SignTransaction(emptyTrans string, prikey []byte) (*SignaturePubkey, error)
 	}
 
 	pub := owcrypt.Point_mulBaseG(prikey, owcrypt.ECC_CURVE_ED25519)
-	pub, _ = owcrypt.CURVE25519_convert_Ed_to_X(pub)
+	pub, err = owcrypt.CURVE25519_convert_Ed_to_X(pub)
+	if err != nil {
+		return nil, errors.New("Failed to convert the public key!")
+	}
 
 	// cpub, err := owcrypt.CURVE25519_convert_X_to_Ed(pub)
 	// if err != nil {
diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index be2fa1f..40465a3 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -35,7 +35,10 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	ids := strings.Split(fromUserID, "-")
 	idBytes := []byte{}
 	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
+		data, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
 		idBytes = append(idBytes, int64ToUvarint(data)...)
 	}
 	commonTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
@@ -165,7 +168,10 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	ids := strings.Split(fromUserID, "-")
 	idBytes := []byte{}
 	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
+		data, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
 		idBytes = append(idBytes, int64ToUvarint(data)...)
 	}
 	contractTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
@@ -176,7 +182,10 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	ids = strings.Split(appID, "-")
 	idBytes = []byte{}
 	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
+		data, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
 		idBytes = append(idBytes, int64ToUvarint(data)...)
 	}
 	contractTx.AppID = append([]byte{byte(len(idBytes))}, idBytes...)
@@ -247,7 +256,10 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	ids := strings.Split(fromUserID, "-")
 	idBytes := []byte{}
 	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
+		data, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
 		idBytes = append(idBytes, int64ToUvarint(data)...)
 	}
 	ucoinTransferTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index cfa6039..a800f26 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -260,7 +260,10 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//if err != nil {
 		//	return nil, err
 		//}
-		lockBytes, _ := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil {
+			return nil, errors.New("Invalid lock script data!")
+		}
 
 		sigBytes, err := t.getBytesForSig(lockBytes, nil, TypeP2PKH, unlockData[i].SigType, i, unlockData[i].Amount, SegwitON)
 		if err != nil {
-- 
2.43.0


From 9a05acdf6ea0a86f2a4fcacf53b6fa7a7107f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:42 +0000
Subject: [PATCH 10/18] fix: filenet accepted and submitted a signature with
 trailing garbage

---
 filenetTransaction/transaction.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/filenetTransaction/transaction.go b/filenetTransaction/transaction.go
index 1232413..81f4421 100644
--- a/filenetTransaction/transaction.go
+++ b/filenetTransaction/transaction.go
@@ -59,7 +59,10 @@ func VerifyAndCombineTransaction(emptyTrans, signature, pubkey  string) (string,
 	}
 
 	hash, _ := hex.DecodeString(tx.TxId)
-	sig, _ := hex.DecodeString(signature)
+	sig, err := hex.DecodeString(signature)
+	if err != nil {
+		return "", false
+	}
 
 	pubBytes, err := hex.DecodeString(pubkey)
 	if err != nil {
-- 
2.43.0


From a3c7dc4f618d5d411a972eecc89ea48dfd00bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:43 +0000
Subject: [PATCH 11/18] fix: scalars with two or more leading zero bytes were
 padded short (signature S, derived child keys)

---
 aliencoinTransaction/txSigPub.go          | 2 +-
 binancechainTransaction/utils.go          | 2 +-
 bitcoincashTransaction/SignaturePubkey.go | 2 +-
 bitcoinsvTransaction/SignaturePubkey.go   | 2 +-
 btcLikeTxDriver/signaturepubkey.go        | 2 +-
 btcTransaction/SignaturePubkey.go         | 2 +-
 cosmosTransaction/transaction.go          | 2 +-
 cxcTransaction/SignaturePubkey.go         | 2 +-
 evaioTransaction/transaction.go           | 2 +-
 hcTransaction/SignaturePubkey.go          | 2 +-
 hypercashTransaction/txSignature.go       | 2 +-
 mateverseTransaction/txUtils.go           | 2 +-
 omniTransaction/SignaturePubkey.go        | 2 +-
 ontologyTransaction/txSigPub.go           | 2 +-
 owkeychain/extendedkey.go                 | 4 ++--
 rippleTransaction/txUtils.go              | 2 +-
 vergeTransaction/txSigPub.go              | 2 +-
 vollarTransaction/txSigPub.go             | 2 +-
 zencashTransaction/SignaturePubkey.go     | 2 +-
 19 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index e36fdda..c1914fa 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/binancechainTransaction/utils.go b/binancechainTransaction/utils.go
index 2bf9143..393ed62 100644
--- a/binancechainTransaction/utils.go
+++ b/binancechainTransaction/utils.go
@@ -21,7 +21,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f1c5f6a..8be4352 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b377fa8..1726bf2 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0a0d002..ce5a687 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 1a9d48f..3effe53 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 3393e7c..e320dfb 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -37,7 +37,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ea881d2..db5da69 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 381e17d..073f867 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -37,7 +37,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 97538b5..1c676a0 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 8a812a6..5f778b7 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -19,7 +19,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 9d50377..f72ce09 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -90,7 +90,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 4d682ae..f8f77bf 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 71ac866..4d9a442 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 97f56cd..2c9f8d7 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -120,7 +120,7 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 		}
 		priChild = ilNum.Bytes()
 		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
+			for len(priChild) < 32 {
 				priChild = append([]byte{0x00}, priChild...)
 			}
 		}
@@ -139,7 +139,7 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 		}
 		priChild = ilNum.Bytes()
 		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
+			for len(priChild) < 32 {
 				priChild = append([]byte{0x00}, priChild...)
 			}
 		}
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 67d3f05..d82c267 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -104,7 +104,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index da17646..6d62208 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index b919b89..77982bd 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -27,7 +27,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 1115e0d..d7ae997 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
-- 
2.43.0


From 82e6c6276ceac5549e8c23708c8c877ded18d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:32 +0000
Subject: [PATCH 12/18] fix: key derivation paths with an index out of range
 derived a different key

---
 owkeychain/hdkey.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index e6ab4d1..775dc5d 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -43,13 +43,13 @@ func DerivedPrivateKeyWithPath(seed []byte, derivedPath string, curveType uint32
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
-			if err != nil {
+			index, err := strconv.ParseUint(elem, 10, 32)
+			if err != nil || index >= uint64(HardenedKeyStart) {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 32)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
@@ -110,13 +110,13 @@ func (k *ExtendedKey) DerivedPublicKeyFromPath(derivedPath string) (*ExtendedKey
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
-			if err != nil {
+			index, err := strconv.ParseUint(elem, 10, 32)
+			if err != nil || index >= uint64(HardenedKeyStart) {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 32)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
-- 
2.43.0


From adb1d3a33d569e8bea26c0305cd4e906bcd3d1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:58 +0000
Subject: [PATCH 13/18] fix: public derivation beyond depth 255 wrapped the
 depth to 0

---
 owkeychain/extendedkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 2c9f8d7..2764112 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -252,6 +252,10 @@ func (k *ExtendedKey) GenPublicChild(serializes uint32) (*ExtendedKey, error) {
 		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展
 			return nil, ErrDeriveHardFromPublic
 		}
+		//越过最大深度限制
+		if k.depth == maxUint8 {
+			return nil, ErrDeriveBeyondMaxDepth
+		}
 		i := getI(k.key, k.chainCode, serializes, typeChoose)
 		childKey, err := getPubChildViaPubParent(i[:32], k.key, typeChoose)
 		if err != nil {
-- 
2.43.0


From a79c8fdbb2066ac9ba0939db5c40c89a4d1d2afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:55 +0000
Subject: [PATCH 14/18] fix: addresses of another network or with a foreign or
 missing prefix were accepted (bech32, bech32m, cash address)

---
 addressEncoder/addressEncoder.go  | 6 ++++++
 addressEncoder/bech32m/bech32m.go | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index d6ce951..5e52780 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -254,6 +254,9 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 	}
 
 	if addresstype.EncodeType == "bech32" {
+		if !strings.HasPrefix(address, addresstype.ChecksumType+"1") {
+			return nil, ErrorInvalidAddress
+		}
 		ret, err := bech32.Decode(address, addresstype.Alphabet)
 		if err != nil {
 			return nil, ErrorInvalidAddress
@@ -264,6 +267,9 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		return ret, nil
 	}
 	if addresstype.EncodeType == "base32PolyMod" {
+		if !strings.HasPrefix(address, addresstype.ChecksumType+":") {
+			return nil, ErrorInvalidAddress
+		}
 		ret, err := base32PolyMod.Decode(address, addresstype.Alphabet)
 		if err != nil {
 			return nil, ErrorInvalidAddress
diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e429615..f14f22a 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -171,9 +171,12 @@ func Bech32mEncode(prefix string, data []byte, charset string) (string, error) {
 
 func Bech32mDecode(address, prefix string, charset string) ([]byte, error) {
 	prechk, data, spec, err := Decode(address, charset)
-	if err != nil || prechk != prefix || spec != Bech32m {
+	if err != nil {
 		return nil, err
 	}
+	if prechk != prefix || spec != Bech32m {
+		return nil, fmt.Errorf("Invalid prefix or encoding")
+	}
 
 	hash, err := Convertbits(data, 5, 8, false)
 	if err != nil {
-- 
2.43.0


From bdd425f5760d4b571e3bb9b7c00594a38849f458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:56 +0000
Subject: [PATCH 15/18] fix: EOS, AE and XCH addresses of the wrong length were
 accepted

---
 addressEncoder/addressEncoder.go | 9 ++++++++-
 addressEncoder/aeternity.go      | 4 ++++
 addressEncoder/eos.go            | 4 ++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 5e52780..b5e672b 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -250,7 +250,14 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 
 	if addresstype.EncodeType == "bech32m" {
-		return bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		ret, err := bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		if err != nil {
+			return nil, err
+		}
+		if len(ret) != addresstype.HashLen {
+			return nil, ErrorInvalidHashLength
+		}
+		return ret, nil
 	}
 
 	if addresstype.EncodeType == "bech32" {
diff --git a/addressEncoder/aeternity.go b/addressEncoder/aeternity.go
index 3149d57..9953290 100644
--- a/addressEncoder/aeternity.go
+++ b/addressEncoder/aeternity.go
@@ -23,6 +23,10 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
+
 	return ret[:len(ret)-4], nil
 }
 
diff --git a/addressEncoder/eos.go b/addressEncoder/eos.go
index 8214fb7..7800dbd 100644
--- a/addressEncoder/eos.go
+++ b/addressEncoder/eos.go
@@ -33,6 +33,10 @@ func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
+
 	return ret[:len(ret)-4], nil
 }
 
-- 
2.43.0


From 6fe197f090743324ed5e91ecf115d56180019400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:26 +0000
Subject: [PATCH 16/18] fix: bytom decoded a transaction version of several
 bytes as its last byte

---
 bytomTransaction/txStruct.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index fe41dd5..442607f 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -113,13 +113,13 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	// get transaction version
 	offset := 1
 	for {
-		if index+1 > limit {
+		if index+offset > limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
 		if txBytes[index+offset-1] < 0x80 {
 			break
 		} else {
-			index++
+			offset++
 			continue
 		}
 	}
@@ -130,7 +130,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	// get range time
 	offset = 1
 	for {
-		if index+1 > limit {
+		if index+offset > limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
 		if txBytes[index+offset-1] < 0x80 {
-- 
2.43.0


From 47958d62b0a05678362139ce12bb08a2637d700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:30 +0000
Subject: [PATCH 17/18] fix: btcLike signing left out the witness of every
 segwit input after the first

---
 btcLikeTxDriver/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 553f3ce..94c9534 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -112,8 +112,8 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 				for j := 0; j < i; j++ {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 			}
+			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 
 		} else {
 			emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
-- 
2.43.0


From 192289cca7a774228a4702d979d2a7c7c8df3056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:30 +0000
Subject: [PATCH 18/18] fix: virtualeconomy dropped a non-empty attachment and
 emitted a malformed transaction

---
 virtualeconomyTransaction/transaction.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index ff53d30..39cde08 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -48,9 +48,10 @@ func CreateEmptyTransaction(ts TxStruct) (string, error) {
 		return "", errors.New("Trying to send VSYS to an invalid address!")
 	}
 	txBytes = append(txBytes, recipient...)
-	if ts.Attachment == "" {
-		txBytes = append(txBytes, attachmentLen...)
+	if ts.Attachment != "" {
+		return "", errors.New("Non-empty attachment is not supported yet!")
 	}
+	txBytes = append(txBytes, attachmentLen...)
 
 	return hex.EncodeToString(txBytes), nil
 }
-- 
2.43.0

