From 71ce50a051633fd5121a34456901b29c897a3950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 01/25] fix: bit readers check for the end of the buffer before
 touching it

BitStream_ReadBit, BitStream_PeekBit and BitStream_ReadPartialByte read the
byte under the cursor (and the following one) before checking whether the
stream still holds data, i.e. one byte past the buffer on truncated input.
---
 asn1crt/asn1crt_encoding.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e350ec7..62cb722 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -229,6 +229,8 @@ void BitStream_AppendBit(BitStream* pBitStrm, flag v)
 
 flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
 	*v = pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 
 	if (pBitStrm->currentBit<7)
@@ -242,6 +244,8 @@ flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 }
 
 flag BitStream_PeekBit(BitStream* pBitStrm) {
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
 	return pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 }
 
@@ -497,6 +501,9 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 	int totalBits = cb + nbits;
 	int totalBitsForNextByte;
 
+	if (pBitStrm->currentByte >= pBitStrm->count)
+		return FALSE;
+
 	if (totalBits <= 8) {
 		*v = (byte)((pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBits)) & masksb[nbits]);
 		pBitStrm->currentBit += nbits;
@@ -510,6 +517,8 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 		totalBitsForNextByte = totalBits - 8;
 		*v = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << totalBitsForNextByte);
 		bitstream_fetch_data_if_required(pBitStrm);
+		if (pBitStrm->currentByte >= pBitStrm->count)
+			return FALSE;
 		*v |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBitsForNextByte));
 		*v &= masksb[nbits];
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From c446607bcc93f97f52900f900652d32f33b77e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:01 +0000
Subject: [PATCH 02/25] loop contract hook (ASN1SCC_LOOP, expands to nothing
 outside verification builds)

---
 asn1crt/asn1crt.h          | 6 ++++++
 asn1crt/asn1crt_encoding.c | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt.h b/asn1crt/asn1crt.h
index ecc5b7c..d99b098 100644
--- a/asn1crt/asn1crt.h
+++ b/asn1crt/asn1crt.h
@@ -50,6 +50,12 @@ typedef unsigned long long uint64_t;
 #define FP_WORD_SIZE	8
 #endif
 
+/* Place of a loop contract (between a loop header and its body). Only a verification
+   build (ASN1SCC_VERIF) gives it a meaning; otherwise it expands to nothing. */
+#ifndef ASN1SCC_VERIF
+#define ASN1SCC_LOOP(...)
+#endif
+
 #ifndef NO_OF_BITS_IN_BYTE
 #define NO_OF_BITS_IN_BYTE 8
 #endif
diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 62cb722..8bfa454 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -182,7 +182,9 @@ void BitStream_AppendNBitOne(BitStream* pBitStrm, int nbits)
 {
 	int i;
 
-	while (nbits >= 8) {
+	while (nbits >= 8)
+	ASN1SCC_LOOP(AppendNBitOne, pBitStrm, nbits)
+	{
 		BitStream_AppendByte(pBitStrm, 0xFF, FALSE);
 		nbits -= 8;
 	}
-- 
2.43.0


From bcf68edffc2fcae9a392a645f1b25f6f7f951a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 03/25] fix: narrow ACN integer decoders reject values that do
 not fit their type

Acn_Dec_*UInt8/16/32 and Int8/16/32 truncated the decoded value silently:
an out-of-range value on the wire was accepted as another, in-range value.
---
 asn1crt/asn1crt_encoding_acn.c | 146 ++++++++++++++++-----------------
 1 file changed, 73 insertions(+), 73 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 4eaf6e9..7c6f82c 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1478,7 +1478,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pI
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1486,7 +1486,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt16(BitStream* pBitStrm, uint16_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1494,7 +1494,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt32(BitStream* pBitStrm, uint32_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1502,7 +1502,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8(BitStream* pBitStrm, uint8_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1510,7 +1510,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt16(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1518,7 +1518,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt8(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1526,7 +1526,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt32(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1534,7 +1534,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt16(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1542,7 +1542,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt8(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1550,7 +1550,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt32(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1558,7 +1558,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt16(BitStream* pBitSt
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1566,7 +1566,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt8(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1574,7 +1574,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt16(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1582,7 +1582,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt8(BitStream* pBit
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1590,7 +1590,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt32(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1598,7 +1598,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt16(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1606,7 +1606,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt8(BitStream* pBit
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1614,7 +1614,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt32(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1622,7 +1622,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt16(BitStream* pBi
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1630,7 +1630,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt8(BitStream* pBit
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1638,7 +1638,7 @@ flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1646,7 +1646,7 @@ flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt16(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1654,7 +1654,7 @@ flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt32(BitStream* pBitStr
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1662,7 +1662,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntV
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1670,7 +1670,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIn
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1678,7 +1678,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIn
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1686,7 +1686,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_8Int8(BitStream* pBitStrm, int8_t* pIn
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1694,7 +1694,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int16(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1702,7 +1702,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int8(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1710,7 +1710,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int32(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1718,7 +1718,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int16(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1726,7 +1726,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int8(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1734,7 +1734,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int32(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1742,7 +1742,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int16(BitStream* pBitStrm
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1750,7 +1750,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int8(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1758,7 +1758,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int16(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1766,7 +1766,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int8(BitStream* pBitSt
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1774,7 +1774,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int32(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1782,7 +1782,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int16(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1790,7 +1790,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int8(BitStream* pBitSt
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1798,7 +1798,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int32(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1806,7 +1806,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int16(BitStream* pBitS
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1814,7 +1814,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int8(BitStream* pBitSt
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1822,7 +1822,7 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1830,7 +1830,7 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1838,7 +1838,7 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm,
 	asn1SccSint v;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1846,7 +1846,7 @@ flag Acn_Dec_Int_BCD_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int e
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1854,7 +1854,7 @@ flag Acn_Dec_Int_BCD_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1862,7 +1862,7 @@ flag Acn_Dec_Int_BCD_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1870,7 +1870,7 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* p
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1878,7 +1878,7 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1886,7 +1886,7 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1894,7 +1894,7 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* p
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1902,7 +1902,7 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1910,7 +1910,7 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t*
 	asn1SccUint v;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1918,7 +1918,7 @@ flag Acn_Dec_SInt_ASCII_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1926,7 +1926,7 @@ flag Acn_Dec_SInt_ASCII_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, in
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1934,7 +1934,7 @@ flag Acn_Dec_SInt_ASCII_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, in
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1942,7 +1942,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t*
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1950,7 +1950,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1958,7 +1958,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1966,7 +1966,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt8(BitStream* pBitStrm, int8_t*
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1974,7 +1974,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt16(BitStream* pBitStrm, int16_t
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1982,7 +1982,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt32(BitStream* pBitStrm, int32_t
 	asn1SccSint v;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1990,7 +1990,7 @@ flag Acn_Dec_UInt_ASCII_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, in
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -1998,7 +1998,7 @@ flag Acn_Dec_UInt_ASCII_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal,
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2006,7 +2006,7 @@ flag Acn_Dec_UInt_ASCII_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal,
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2014,7 +2014,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2022,7 +2022,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2030,7 +2030,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2038,7 +2038,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2046,7 +2046,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
@@ -2054,7 +2054,7 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32
 	asn1SccUint v;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
-- 
2.43.0


From b10bfcdfb7056e92d437646311e19a0a7a233fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 04/25] fix: BitStream_DecodeOctetString reports failure when
 the octets are not all there

The result of BitStream_DecodeOctetString_no_length was ignored: a truncated
stream decoded to TRUE with an uninitialised octet string.
---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 8bfa454..53a0ef8 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1642,7 +1642,7 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 		*nCount = (int)nCountL;
 		ret = ret && (nCountL >= asn1SizeMin && nCountL <= asn1SizeMax);
 		if (ret) {
-			BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
+			ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
 		}
 	}
 	else {
-- 
2.43.0


From 908f72452ecc1dd7feef50da1286f2d023fa4c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 05/25] fix: octet and bit strings of length 0 whose size is
 not below 64K can be decoded

The encoders emit a zero length determinant, which both fragmentation decoders
rejected.
---
 asn1crt/asn1crt_encoding.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 53a0ef8..21b53b0 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1591,7 +1591,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 				if (ret) {
 					nLengthTmp1 += (long)nRemainingItemsVar1;
 
-					if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+					if ((nLengthTmp1 >= 0) && (nLengthTmp1 <= asn1SizeMax)) {
 						*nCount = (int)nLengthTmp1;
 
 					}
@@ -1779,7 +1779,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= 0) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From 3fef38d0a5b4a3400f9cd7c47866acb6d84c46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 06/25] fix: Acn_Dec_Int_BCD_VarSize_LengthEmbedded accepts
 every value its encoder can write

The decoder refused more than 2*WORD_SIZE digits, so values of 10^16 and more
(17 to 20 digits) could be encoded but not decoded.
---
 asn1crt/asn1crt_encoding_acn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 7c6f82c..385076c 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -604,7 +604,8 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint* pI
 	byte nNibbles = 0;
 	if (!BitStream_ReadByte(pBitStrm, &nNibbles))
 		return FALSE;
-	if (nNibbles > 2 * WORD_SIZE)
+	/* an asn1SccUint has up to 20 (WORD_SIZE 8) or 10 (WORD_SIZE 4) decimal digits */
+	if (nNibbles > 5 * WORD_SIZE / 2)
 		return FALSE;
 	return Acn_Dec_Int_BCD_ConstSize(pBitStrm, pIntVal, nNibbles);
 }
-- 
2.43.0


From 11a49331e60d532a04b688bd086a3d2cb5b12ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 07/25] fix: ACN decimal decoders report failure on non-digits
 and on values that do not fit

Acn_Dec_Int_BCD_*, Acn_Dec_UInt_ASCII_* and Acn_Dec_SInt_ASCII_* accepted
nibbles above 9 / non-digit characters as digits (or aborted in assert), and
wrapped around silently above the largest integer.
---
 asn1crt/asn1crt_encoding_acn.c | 41 +++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 385076c..0176464 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -524,6 +524,17 @@ flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1
 }
 
 
+//appends a decimal digit to *pVal. Returns FALSE if it is no digit or if the result does not fit in an asn1SccUint
+static flag Acn_Append_Decimal_Digit(asn1SccUint* pVal, int digit)
+{
+	const asn1SccUint maxVal = (asn1SccUint)-1;
+
+	if (digit < 0 || digit > 9 || *pVal > maxVal / 10 || *pVal * 10 > maxVal - (asn1SccUint)digit)
+		return FALSE;
+	*pVal = *pVal * 10 + (asn1SccUint)digit;
+	return TRUE;
+}
+
 //return values is in nibbles
 static int Acn_Get_Int_Size_BCD(asn1SccUint intVal)
 {
@@ -575,8 +586,8 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_Append_Decimal_Digit(&ret, digit))
+			return FALSE;
 
 		encodedSizeInNibbles--;
 	}
@@ -638,8 +649,8 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint* pI
 		if (digit>9)
 			break;
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_Append_Decimal_Digit(&ret, digit))
+			return FALSE;
 
 	}
 	*pIntVal = ret;
@@ -695,11 +706,8 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	{
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
-		ASSERT_OR_RETURN_FALSE(digit >= '0' && digit <= '9');
-		digit = (byte)((int)digit - '0');
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_Append_Decimal_Digit(&ret, (int)digit - '0'))
+			return FALSE;
 
 		encodedSizeInBytes--;
 	}
@@ -721,7 +729,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	else if (digit == '-')
 		sign = -1;
 	else {
-		ASSERT_OR_RETURN_FALSE(0);
+		return FALSE;
 	}
 	encodedSizeInBytes--;
 
@@ -729,6 +737,8 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	if (!Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &ret, encodedSizeInBytes)) {
 		return false;
 	}
+	if (ret > (((asn1SccUint)-1) >> 1) + (asn1SccUint)(sign < 0))
+		return FALSE;
 
 	*pIntVal = (asn1SccSint)ret;
 
@@ -872,10 +882,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 		if (!BitStream_ReadByte(pBitStrm, &(tmp[sz - 1])))
 			return FALSE;
 
-		digit = (byte)((int)digit - '0');
-
-		ret *= 10;
-		ret += digit;
+		if (!Acn_Append_Decimal_Digit(&ret, (int)digit - '0'))
+			return FALSE;
 	}
 
 	*pIntVal = ret;
@@ -892,12 +900,15 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	ASSERT_OR_RETURN_FALSE(digit == '-' || digit == '+');
+	if (digit != '-' && digit != '+')
+		return FALSE;
 	if (digit == '-')
 		isNegative = TRUE;
 
 	if (!Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &ret, null_characters, null_characters_size))
 		return false;
+	if (ret > (((asn1SccUint)-1) >> 1) + (asn1SccUint)(isNegative ? 1 : 0))
+		return FALSE;
 
 	*pIntVal = (asn1SccSint)ret;
 	if (isNegative)
-- 
2.43.0


From 9bd56c98afaada8e3cd399785088639c0b262ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 08/25] loop contract hook in the determinant patch loops
 (expands to nothing outside verification builds)

---
 asn1crt/asn1crt_encoding_acn.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_acn.h b/asn1crt/asn1crt_encoding_acn.h
index 4a39278..d421360 100644
--- a/asn1crt/asn1crt_encoding_acn.h
+++ b/asn1crt/asn1crt_encoding_acn.h
@@ -453,6 +453,7 @@ static inline flag Acn_PatchDet_##name(asn1SccUint v, BitStream* bs, int nBits,
         /* clears adjacent bits when crossing a byte boundary — unsafe   */ \
         /* for patching in the middle of a stream. AppendBit is safe.    */ \
         for (_i = 0; _i < nBits; _i++)                                          \
+        ASN1SCC_LOOP(PatchDet, bs, _i, nBits, v)                                \
             BitStream_AppendBit(bs, (byte)((v >> (nBits - 1 - _i)) & 1));       \
         Acn_BitStream_SetPos(bs, cur);                                          \
         det->value = v;                                                         \
@@ -485,6 +486,7 @@ static inline flag Acn_PatchDet_##name(asn1SccUint v, BitStream* bs, int nBits,
         Acn_BitStream_SetPos(bs, det->pos);                                     \
         /* Bit-by-bit write (same rationale as unsigned CONSTSIZE variant) */    \
         for (_i = 0; _i < nBits; _i++)                                          \
+        ASN1SCC_LOOP(PatchDet, bs, _i, nBits, v)                                \
             BitStream_AppendBit(bs, (byte)((v >> (nBits - 1 - _i)) & 1));       \
         Acn_BitStream_SetPos(bs, cur);                                          \
         det->value = v;                                                         \
-- 
2.43.0


From 387622a26a404361d977b65de50d45104878017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 09/25] fix: BER byte readers and writers stop at the end of
 the buffer

ByteStream_PutByte/GetByte accessed buf[count].
---
 asn1crt/asn1crt_encoding_ber.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 4355355..c11d1ee 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -13,7 +13,7 @@ int GetLengthInBytesOfSInt(asn1SccSint v);
 
 static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1>pStrm->count)
 		return FALSE;
 
 	pStrm->buf[pStrm->currentByte] = v;
@@ -22,7 +22,7 @@ static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 }
 
 static flag ByteStream_GetByte(ByteStream* pStrm, byte* v) {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1>pStrm->count)
 		return FALSE;
 	*v = pStrm->buf[pStrm->currentByte];
 	pStrm->currentByte++;
-- 
2.43.0


From 357ca93094668490b23980b60c62485483408229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 10/25] fix: BerDecodeTag compares tags of more than four
 octets correctly

0x20 was shifted as an int, which is undefined for tags of five octets or more.
---
 asn1crt/asn1crt_encoding_ber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index c11d1ee..7ea85a4 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -92,7 +92,7 @@ flag BerDecodeTag(ByteStream* pByteStrm, BerTag tag, int *pErrCode) {
 		tgCopy >>= 8;
 		tagSize++;
 	}
-	PrimitiveBit = (BerTag)(0x20 << ((tagSize - 1) * 8));
+	PrimitiveBit = (BerTag)0x20 << ((tagSize - 1) * 8);
 
 	while (tagSize>0) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
-- 
2.43.0


From 9d1f895e15714a9d3738a2bf1b7a01105cb5fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 11/25] fix: BER decoders reject lengths they cannot represent

A length above INT_MAX, an indefinite length of a primitive value, an integer of more octets than
asn1SccSint has and a bit string with more unused bits than bits were accepted and gave a wrong value.
---
 asn1crt/asn1crt_encoding_ber.c | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 7ea85a4..afe294e 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -5,6 +5,7 @@
 #include <float.h>
 #include <ctype.h>
 #include <stdlib.h>
+#include <limits.h>
 
 #include "asn1crt_encoding_ber.h"
 
@@ -162,6 +163,10 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
+		if (ret > ((unsigned int)INT_MAX >> 8)) {
+			*pErrCode = ERR_BER_LENGTH_MISMATCH;
+			return FALSE;
+		}
 		ret <<= 8;
 		ret |= curByte;
 	}
@@ -250,6 +255,11 @@ flag BerDecodeInteger(ByteStream* pByteStrm, BerTag tag, asn1SccSint *value, int
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 1 || length > WORD_SIZE) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	for (i = 0; i<length; i++) {
 		byte curByte;
 
@@ -393,6 +403,10 @@ flag BerDecodeIA5String(ByteStream* pByteStrm, BerTag tag, char* value, int maxL
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 0) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	for (i = 0; i<length; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
@@ -482,11 +496,21 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 1) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	if (!ByteStream_GetByte(pByteStrm, &lastByteUnusedBits)) {
 		*pErrCode = ERR_INSUFFICIENT_DATA;
 		return FALSE;
 	}
 
+	if (lastByteUnusedBits > 7 || (length == 1 && lastByteUnusedBits != 0)) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	for (i = 0; i<length - 1; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
@@ -541,6 +565,11 @@ flag BerDecodeOctetString(ByteStream* pByteStrm, BerTag tag, byte* value, int *o
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
 
+	if (length < 0) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
+
 	if (octCount != NULL)
 		*octCount = length <= maxOctCount ? length : maxOctCount;
 
-- 
2.43.0


From 75e951b6eb42996a1f18292a4704fffaf2762edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 12/25] loop contract hook in BerDecodeLength (expands to
 nothing outside verification builds)

---
 asn1crt/asn1crt_encoding_ber.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index afe294e..a909e81 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -157,7 +157,9 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 		}
 	}
 
-	for (i = 0; i<lenlen; i++) {
+	for (i = 0; i<lenlen; i++)
+	ASN1SCC_LOOP(BerDecodeLength, pByteStrm, i, lenlen, ret, curByte, pErrCode)
+	{
 
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
 			*pErrCode = ERR_INSUFFICIENT_DATA;
-- 
2.43.0


From 06364c3676f215efcc3c49a0d9cf623f0dbee0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 13/25] fix: BitStream_AppendByteArray stays inside the buffer
 and overwrites stale bits

---
 asn1crt/asn1crt_encoding.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 21b53b0..a844781 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -337,17 +337,23 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
         pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
 
-        pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-        pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
+        }
     }
 
     for (int i = 1; i < arr_len - 1; i++) {
         byte v = arr[i];
         byte v1 = (byte)(v >> cb);
         byte v2 = (byte)(v << ncb);
+        pBitStrm->buf[pBitStrm->currentByte] &= mask;
         pBitStrm->buf[pBitStrm->currentByte++] |= v1;  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
-        pBitStrm->buf[pBitStrm->currentByte] |= v2;
+        if (cb) {
+            pBitStrm->buf[pBitStrm->currentByte] &= nmask;
+            pBitStrm->buf[pBitStrm->currentByte] |= v2;
+        }
     }
     if (arr_len - 1 > 0) {
         byte v = arr[arr_len - 1];
-- 
2.43.0


From 9174b5d5774c770c86e21e76d2c29577b4822648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 14/25] fix: BitStream_ReadByteArray stays inside the buffer
 and follows refills

---
 asn1crt/asn1crt_encoding.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index a844781..5bd86d8 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -400,7 +400,6 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
     int cb = pBitStrm->currentBit;
     int ncb = 8 - cb;
-	byte* rb = &pBitStrm->buf[pBitStrm->currentByte];
 	byte* wb = arr;
 
 #ifndef ASN1SCC_STREAMING
@@ -409,13 +408,12 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
 #endif
 
     for (int i = 0; i < arr_len; i++) {
-		*wb = (byte)((*rb) << cb);
-		rb++;
+		*wb = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << cb);
 		bitstream_fetch_data_if_required(pBitStrm);
-		*wb |= (byte)((*rb) >> ncb);
+		if (cb)
+			*wb |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> ncb);
 		wb++;
     }
-	pBitStrm->currentByte += arr_len;
     return TRUE;
 }
 
-- 
2.43.0


From 1ba74ac0fcae6e401f888adb324d7cf5df915dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 15/25] fix: BitStream_AppendPartialByte clears the bits it
 writes in the second byte, not the others

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 5bd86d8..8ece230 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -491,7 +491,7 @@ void BitStream_AppendPartialByte(BitStream* pBitStrm, byte v, byte nbits, flag n
 		pBitStrm->buf[pBitStrm->currentByte] &= mask1;
 		pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> totalBitsForNextByte);
 		bitstream_push_data_if_required(pBitStrm);
-		byte mask = (byte)~masksb[8 - totalBitsForNextByte];
+		byte mask = masksb[8 - totalBitsForNextByte];
 		pBitStrm->buf[pBitStrm->currentByte] &= mask;
 		pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << (8 - totalBitsForNextByte));
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From 588135f6b7334541385b397c6bb596d10b36c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 16/25] loop contract hooks in the octet and bit string
 functions (expand to nothing outside verification builds)

---
 asn1crt/asn1crt_encoding.c | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 8ece230..8583512 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -343,7 +343,9 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
         }
     }
 
-    for (int i = 1; i < arr_len - 1; i++) {
+    for (int i = 1; i < arr_len - 1; i++)
+    ASN1SCC_LOOP(AppendByteArray, pBitStrm, arr, i, arr_len)
+    {
         byte v = arr[i];
         byte v1 = (byte)(v >> cb);
         byte v2 = (byte)(v << ncb);
@@ -407,7 +409,9 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
         return FALSE;
 #endif
 
-    for (int i = 0; i < arr_len; i++) {
+    for (int i = 0; i < arr_len; i++)
+    ASN1SCC_LOOP(ReadByteArray, pBitStrm, arr, wb, i, arr_len)
+    {
 		*wb = (byte)(pBitStrm->buf[pBitStrm->currentByte++] << cb);
 		bitstream_fetch_data_if_required(pBitStrm);
 		if (cb)
@@ -1347,7 +1351,9 @@ int BitStream_checkBitPatternPresent(BitStream* pBitStrm, const byte bit_termina
 	if (pBitStrm->currentByte * 8 + pBitStrm->currentBit + (long)bit_terminated_pattern_size_in_bits > pBitStrm->count * 8)
 		return 0;
 
-	while (bit_terminated_pattern_size_in_bits >= 8) {
+	while (bit_terminated_pattern_size_in_bits >= 8)
+	ASN1SCC_LOOP(CheckBitPattern, pBitStrm, bit_terminated_pattern, bit_terminated_pattern_size_in_bits, tmp_byte, i)
+	{
 		if (!BitStream_ReadByte(pBitStrm, &tmp_byte))
 			return 0;
 		bit_terminated_pattern_size_in_bits -= 8;
@@ -1386,6 +1392,7 @@ flag BitStream_ReadBits_nullterminated(BitStream* pBitStrm, const byte bit_termi
 	BitStream tmpStrm;
 	BitStream_Init(&tmpStrm, BuffToWrite, nMaxReadBits % 8 == 0 ? nMaxReadBits / 8 : nMaxReadBits / 8 + 1);
 	while (ret && (*bitsRead < nMaxReadBits) && ((checkBitPatternPresentResult = BitStream_checkBitPatternPresent(pBitStrm, bit_terminated_pattern, bit_terminated_pattern_size_in_bits)) == 1))
+	ASN1SCC_LOOP(ReadBitsNullterminated, pBitStrm, tmpStrm, bitsRead, nMaxReadBits, bit_terminated_pattern, bit_terminated_pattern_size_in_bits, checkBitPatternPresentResult, ret)
 	{
 		ret = BitStream_ReadBit(pBitStrm, &bitVal);
 		if (ret) {
@@ -1491,6 +1498,7 @@ flag BitStream_EncodeOctetString_fragmentation(BitStream* pBitStrm, const byte*
 	flag ret = nCount >= 0;
 
 	while (nRemainingItemsVar1 >= 0x4000 && ret)
+	ASN1SCC_LOOP(EncOctFrag, pBitStrm, arr, nCount, nRemainingItemsVar1, nCurBlockSize1, nCurOffset1, i1, ret)
 	{
 		if (nRemainingItemsVar1 >= 0x10000)
 		{
@@ -1514,6 +1522,7 @@ flag BitStream_EncodeOctetString_fragmentation(BitStream* pBitStrm, const byte*
 		}
 
 		for (i1 = nCurOffset1; (i1 < nCurBlockSize1 + nCurOffset1) && ret; i1++)
+		ASN1SCC_LOOP(EncOctFragBlock, pBitStrm, arr, nCurBlockSize1, nCurOffset1, i1, ret)
 		{
 			ret = BitStream_AppendByte0(pBitStrm, arr[i1]);
 		}
@@ -1530,6 +1539,7 @@ flag BitStream_EncodeOctetString_fragmentation(BitStream* pBitStrm, const byte*
 		}
 
 		for (i1 = nCurOffset1; i1 < (nCurOffset1 + nRemainingItemsVar1) && ret; i1++)
+		ASN1SCC_LOOP(EncOctFragBlock, pBitStrm, arr, nRemainingItemsVar1, nCurOffset1, i1, ret)
 		{
 			ret = BitStream_AppendByte0(pBitStrm, arr[i1]);
 		}
@@ -1549,6 +1559,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 	ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nRemainingItemsVar1, 0, 0xFF);
 	if (ret) {
 		while (ret && (nRemainingItemsVar1 & 0xC0) == 0xC0)
+		ASN1SCC_LOOP(DecOctFrag, pBitStrm, arr, asn1SizeMax, nRemainingItemsVar1, nCurBlockSize1, nCurOffset1, nLengthTmp1, i1, ret)
 		{
 			if (nRemainingItemsVar1 == 0xC4)
 				nCurBlockSize1 = 0x10000;
@@ -1564,6 +1575,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 			if (ret) {
 				ret = nCurOffset1 + nCurBlockSize1 <= asn1SizeMax;
 				for (i1 = (int)nCurOffset1; ret && (i1 < (int)(nCurOffset1 + nCurBlockSize1)); i1++)
+				ASN1SCC_LOOP(DecOctFragBlock, pBitStrm, arr, nCurBlockSize1, nCurOffset1, i1, ret)
 				{
 					ret = BitStream_ReadByte(pBitStrm, &(arr[i1]));
 				}
@@ -1589,6 +1601,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 			ret = ret && (nCurOffset1 + nRemainingItemsVar1 <= asn1SizeMax);
 			if (ret) {
 				for (i1 = (int)nCurOffset1; ret && (i1 < (int)(nCurOffset1 + nRemainingItemsVar1)); i1++)
+				ASN1SCC_LOOP(DecOctFragBlock, pBitStrm, arr, nRemainingItemsVar1, nCurOffset1, i1, ret)
 				{
 					ret = BitStream_ReadByte(pBitStrm, &(arr[i1]));
 				}
@@ -1671,6 +1684,7 @@ flag BitStream_EncodeBitString(BitStream* pBitStrm, const byte* arr, int nCount,
 		nCurBlockSize1 = 0;
 		nCurOffset1 = 0;
 		while (nRemainingItemsVar1 >= 0x4000 )
+		ASN1SCC_LOOP(EncBitFrag, pBitStrm, arr, nCount, nRemainingItemsVar1, nCurBlockSize1, nCurOffset1)
 		{
 			if (nRemainingItemsVar1 >= 0x10000)
 			{
@@ -1741,6 +1755,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 		ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nRemainingItemsVar1, 0, 0xFF);
 		if (ret) {
 			while (ret && (nRemainingItemsVar1 & 0xC0) == 0xC0)
+			ASN1SCC_LOOP(DecBitFrag, pBitStrm, arr, asn1SizeMax, nRemainingItemsVar1, nCurBlockSize1, nCurOffset1, nLengthTmp1, ret)
 			{
 				if (nRemainingItemsVar1 == 0xC4)
 					nCurBlockSize1 = 0x10000;
-- 
2.43.0


From d71e5a17b9623a29e6a65ae336d1aff2251c0136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:10 +0000
Subject: [PATCH 17/25] hook: loop contract points in the ACN string functions

---
 asn1crt/asn1crt.c              |  1 +
 asn1crt/asn1crt_encoding_acn.c | 32 ++++++++++++++++++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index ffab9eb..59ff669 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -50,6 +50,7 @@ int GetCharIndex(char ch, byte Set[], int setLen)
 {
     int i=0;
     for(i=0; i<setLen; i++)
+    ASN1SCC_LOOP(CharIndex, ch, Set, setLen, i)
         if (ch == Set[i])
             return i;
     return 0;
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 0176464..a87d691 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1167,7 +1167,9 @@ flag Acn_Dec_Real_IEEE754_64_little_endian(BitStream* pBitStrm, asn1Real* pRealV
 void Acn_Enc_String_Ascii_FixSize(BitStream* pBitStrm, asn1SccSint max, const char* strVal)
 {
 	asn1SccSint i = 0;
-	while (i<max) {
+	while (i<max)
+	ASN1SCC_LOOP(EncStrAscii, pBitStrm, strVal, i, max)
+	{
 		BitStream_AppendByte(pBitStrm, strVal[i], FALSE);
 		i++;
 	}
@@ -1178,7 +1180,9 @@ static asn1SccSint Acn_Enc_String_Ascii_private(BitStream* pBitStrm,
 	const char* strVal)
 {
 	asn1SccSint i = 0;
-	while ((i < max) && (strVal[i] != '\0')) {
+	while ((i < max) && (strVal[i] != '\0'))
+	ASN1SCC_LOOP(EncStrAsciiNul, pBitStrm, strVal, i, max)
+	{
 		BitStream_AppendByte(pBitStrm, strVal[i], FALSE);
 		i++;
 	}
@@ -1194,7 +1198,9 @@ void Acn_Enc_String_Ascii_Null_Terminated(BitStream* pBitStrm, asn1SccSint max,
 void Acn_Enc_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint max, const byte null_character[], size_t null_character_size, const char* strVal) {
 	size_t i = 0;
 	Acn_Enc_String_Ascii_private(pBitStrm, max, strVal);
-	for (i = 0; i<null_character_size; i++) {
+	for (i = 0; i<null_character_size; i++)
+	ASN1SCC_LOOP(EncStrTerm, pBitStrm, strVal, null_character, i, null_character_size)
+	{
 		BitStream_AppendByte(pBitStrm, null_character[i], FALSE);
 	}
 }
@@ -1215,7 +1221,9 @@ void Acn_Enc_String_Ascii_Internal_Field_Determinant(BitStream* pBitStrm, asn1Sc
 void Acn_Enc_String_CharIndex_FixSize(BitStream* pBitStrm, asn1SccSint max, byte allowedCharSet[], int charSetSize, const char* strVal)
 {
 	asn1SccSint i = 0;
-	while (i<max) {
+	while (i<max)
+	ASN1SCC_LOOP(EncStrIndex, pBitStrm, strVal, allowedCharSet, charSetSize, i, max)
+	{
 		int charIndex = GetCharIndex(strVal[i], allowedCharSet, charSetSize);
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, charIndex, 0, charSetSize - 1);
 		i++;
@@ -1229,7 +1237,9 @@ static asn1SccSint Acn_Enc_String_CharIndex_private(BitStream* pBitStrm,
 	const char* strVal)
 {
 	asn1SccSint i = 0;
-	while ((i < max) && (strVal[i] != '\0') ) {
+	while ((i < max) && (strVal[i] != '\0') )
+	ASN1SCC_LOOP(EncStrIndexNul, pBitStrm, strVal, allowedCharSet, charSetSize, i, max)
+	{
 		int charIndex = GetCharIndex(strVal[i], allowedCharSet, charSetSize);
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, charIndex, 0, charSetSize - 1);
 		i++;
@@ -1294,7 +1304,9 @@ static flag Acn_Dec_String_Ascii_private(BitStream* pBitStrm,
 	asn1SccSint i = 0;
 	byte decodedCharacter;
 	memset(strVal, 0x0, (size_t)max + 1);
-	while (i<charactersToDecode) {
+	while (i<charactersToDecode)
+	ASN1SCC_LOOP(DecStrAscii, pBitStrm, strVal, decodedCharacter, i, charactersToDecode)
+	{
 		if (!BitStream_ReadByte(pBitStrm, &decodedCharacter))
 			return FALSE;
 		strVal[i] = decodedCharacter;
@@ -1316,7 +1328,9 @@ flag Acn_Dec_String_Ascii_Null_Terminated(BitStream* pBitStrm, asn1SccSint max,
 	asn1SccSint i = 0;
 	byte decodedCharacter;
 	memset(strVal, 0x0, (size_t)max + 1);
-	while (i <= max) {
+	while (i <= max)
+	ASN1SCC_LOOP(DecStrNul, pBitStrm, strVal, null_character, decodedCharacter, i, max)
+	{
 		if (!BitStream_ReadByte(pBitStrm, &decodedCharacter))
 			return FALSE;
 		if (decodedCharacter != (byte)null_character) {
@@ -1385,7 +1399,9 @@ static flag Acn_Dec_String_CharIndex_private(BitStream* pBitStrm,
 {
 	asn1SccSint i = 0;
 	memset(strVal, 0x0, (size_t)max + 1);
-	while (i<charactersToDecode) {
+	while (i<charactersToDecode)
+	ASN1SCC_LOOP(DecStrIndex, pBitStrm, strVal, allowedCharSet, charSetSize, i, charactersToDecode)
+	{
 		asn1SccSint charIndex = 0;
 		if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &charIndex, 0, charSetSize - 1))
 			return FALSE;
-- 
2.43.0


From 3b92e93ca63e1c1f2d08c1a0dda84e0a4883a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:36 +0000
Subject: [PATCH 18/25] fix: Acn_Dec_String_Ascii_Null_Terminated_mult accepted
 one character too many and wrote behind the string

---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index a87d691..d54117d 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1360,7 +1360,7 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 	}
 
 	asn1SccSint i = 0;
-	while (i <= max && (memcmp(null_character, tmp, sz) != 0)) {
+	while (i < max && (memcmp(null_character, tmp, sz) != 0)) {
 		strVal[i] = tmp[0];
 		i++;
 		for (int j = 0; j < (int)sz - 1; j++)
-- 
2.43.0


From 020c34bef924646e6e51a1902c6e556353cf11d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 19/25] fix: Acn_Dec_SInt_ASCII_ConstSize/VarSize read a sign
 byte outside a value of length 0

---
 asn1crt/asn1crt_encoding_acn.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index d54117d..a68b1a0 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -722,6 +722,9 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 	asn1SccUint ret = 0;
 	int sign = 1;
 
+	/* the sign takes one byte */
+	if (encodedSizeInBytes < 1)
+		return FALSE;
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
 	if (digit == '+')
-- 
2.43.0


From 56386a4307545fbb40027df89aaf17093de3d108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:15 +0000
Subject: [PATCH 20/25] hook: loop contracts of the ACN decimal integers

---
 asn1crt/asn1crt_encoding_acn.c | 45 ++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index a68b1a0..a28968a 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -540,6 +540,7 @@ static int Acn_Get_Int_Size_BCD(asn1SccUint intVal)
 {
 	int ret = 0;
 	while (intVal>0)
+	ASN1SCC_LOOP(DecSize, intVal, ret)
 	{
 		intVal /= 10;
 		ret++;
@@ -560,13 +561,17 @@ void Acn_Enc_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int enco
 
 	assert(100 >= encodedSizeInNibbles);
 
-	while (intVal>0) {
+	while (intVal>0)
+	ASN1SCC_LOOP(DecDigits, intVal, tmp, totalNibbles, 0)
+	{
 		tmp[totalNibbles++] = (char)(intVal % 10);
 		intVal /= 10;
 	}
 	assert(encodedSizeInNibbles >= totalNibbles);
 
-	for (i = encodedSizeInNibbles - 1; i >= 0; i--) {
+	for (i = encodedSizeInNibbles - 1; i >= 0; i--)
+	ASN1SCC_LOOP(DecAppend, pBitStrm, 4, i, encodedSizeInNibbles)
+	{
 		BitStream_AppendPartialByte(pBitStrm, (byte)tmp[i], 4, 0);
 	}
 
@@ -582,6 +587,7 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 
 
 	while (encodedSizeInNibbles>0)
+	ASN1SCC_LOOP(DecFold, pBitStrm, 4, encodedSizeInNibbles, digit, ret)
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
@@ -643,6 +649,7 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint* pI
 	asn1SccUint ret = 0;
 
 	for (;;)
+	ASN1SCC_LOOP(DecFoldNul, pBitStrm, 4, digit, ret)
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
@@ -669,13 +676,17 @@ void Acn_Enc_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int e
 
 	assert(100 >= encodedSizeInBytes);
 
-	while (intVal>0) {
+	while (intVal>0)
+	ASN1SCC_LOOP(DecDigits, intVal, tmp, totalNibbles, 0)
+	{
 		tmp[totalNibbles++] = (char)(intVal % 10);
 		intVal /= 10;
 	}
 	assert(encodedSizeInBytes >= totalNibbles);
 
-	for (i = encodedSizeInBytes - 1; i >= 0; i--) {
+	for (i = encodedSizeInBytes - 1; i >= 0; i--)
+	ASN1SCC_LOOP(DecAppend, pBitStrm, 8, i, encodedSizeInBytes)
+	{
 		BitStream_AppendByte0(pBitStrm, (byte)(tmp[i] + '0'));
 	}
 
@@ -703,6 +714,7 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	asn1SccUint ret = 0;
 
 	while (encodedSizeInBytes>0)
+	ASN1SCC_LOOP(DecFold, pBitStrm, 8, encodedSizeInBytes, digit, ret)
 	{
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
@@ -760,12 +772,16 @@ void getIntegerDigits(asn1SccUint intVal, byte digitsArray100[], byte* totalDigi
 	memset(reversedDigitsArray, 0x0, 100);
 	memset(digitsArray100, 0x0, 100);
 	if (intVal > 0) {
-		while (intVal > 0 && *totalDigits < 100) {
+		while (intVal > 0 && *totalDigits < 100)
+		ASN1SCC_LOOP(DecDigits, intVal, reversedDigitsArray, *totalDigits, 48)
+		{
 			reversedDigitsArray[*totalDigits] = '0' + (byte)(intVal % 10);
 			(*totalDigits)++;
 			intVal /= 10;
 		}
-		for (i = *totalDigits - 1; i >= 0; i--) {
+		for (i = *totalDigits - 1; i >= 0; i--)
+		ASN1SCC_LOOP(DecReverse, digitsArray100, reversedDigitsArray, *totalDigits, i)
+		{
 			digitsArray100[(*totalDigits - 1) - i] = reversedDigitsArray[i];
 		}
 	}
@@ -791,7 +807,9 @@ void Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccSint
 	BitStream_AppendByte0(pBitStrm, intVal >= 0 ? '+' : '-');
 
 	/* encode digits */
-	while (i < 100 && digitsArray100[i] != 0x0) {
+	while (i < 100 && digitsArray100[i] != 0x0)
+	ASN1SCC_LOOP(DecChars, pBitStrm, i)
+	{
 		BitStream_AppendByte0(pBitStrm, digitsArray100[i]);
 		i++;
 	}
@@ -810,7 +828,9 @@ void Acn_Enc_UInt_ASCII_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint
 	/* encode length */
 	BitStream_AppendByte0(pBitStrm, nChars);
 	/* encode digits */
-	while (i < 100 && digitsArray100[i] != 0x0) {
+	while (i < 100 && digitsArray100[i] != 0x0)
+	ASN1SCC_LOOP(DecChars, pBitStrm, i)
+	{
 		BitStream_AppendByte0(pBitStrm, digitsArray100[i]);
 		i++;
 	}
@@ -846,7 +866,9 @@ void Acn_Enc_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint
 	byte nChars;
 	size_t i = 0;
 	getIntegerDigits(intVal, digitsArray100, &nChars);
-	while (i < 100 && digitsArray100[i] != 0x0) {
+	while (i < 100 && digitsArray100[i] != 0x0)
+	ASN1SCC_LOOP(DecChars, pBitStrm, i)
+	{
 		BitStream_AppendByte0(pBitStrm, digitsArray100[i]);
 		i++;
 	}
@@ -878,9 +900,12 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 			return FALSE;
 	}
 
-	while (memcmp(null_characters, tmp, sz) != 0) {
+	while (memcmp(null_characters, tmp, sz) != 0)
+	ASN1SCC_LOOP(DecWindow, pBitStrm, ret, digit, tmp, sz)
+	{
 		digit = tmp[0];
 		for (int j = 0; j < (int)sz - 1; j++)
+		ASN1SCC_LOOP(DecWindowShift, tmp, j, sz)
 			tmp[j] = tmp[j + 1];
 		if (!BitStream_ReadByte(pBitStrm, &(tmp[sz - 1])))
 			return FALSE;
-- 
2.43.0


From 0fb7a416424b40e13fe03538a2e7f65ebec12dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 21/25] fix: reals below 2^-970 were decoded as 0, and huge
 exponents kept the decoder busy for minutes

---
 asn1crt/asn1crt_encoding.c | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 8583512..a3ea36c 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1133,25 +1133,18 @@ asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
 #else
-	asn1Real ret = 1.0;
-	if (mantissa == 0)
-		return 0.0;
+	/* scale the value itself: 2^|exponent| alone need not be representable */
+	asn1Real ret = (asn1Real)mantissa;
 
-	if (exponent >= 0) {
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return (asn1Real)mantissa*ret;
+	while (exponent > 0 && ret > 0.0 && ret < INFINITY) {
+		ret = ret * 2.0;
+		exponent--;
 	}
-	else {
-		exponent = -exponent;
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return ((asn1Real)mantissa) / ret;
+	while (exponent < 0 && ret > 0.0) {
+		ret = ret / 2.0;
+		exponent++;
 	}
+	return ret;
 #endif
 }
 
-- 
2.43.0


From 2c4ec17b5dacc8aad8d016e693dc090a25125e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 22/25] fix: subnormal reals were encoded as if they were
 normal

---
 asn1crt/asn1crt_encoding.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index a3ea36c..c29d13c 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1126,6 +1126,11 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 	*mantissa = ll & MantBitMask;
 	(*mantissa) |= MantisaExtraBit;
 #endif
+	if ((ll & ExpoBitMask) == 0) {
+		/* zero and subnormals: no implicit bit, exponent of the smallest normal */
+		*mantissa = ll & MantBitMask;
+		(*exponent)++;
+	}
 }
 
 asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
-- 
2.43.0


From 57ceb656784f6301b5366a73d608362093b01427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 23/25] fix: minus zero was encoded as plus zero

---
 asn1crt/asn1crt_encoding.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index c29d13c..ce073ed 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1170,16 +1170,16 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 		return;
 	}
 
+	if (v == 0.0 && signbit(v)) {
+		BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
+		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
+		return;
+    }
 	if (v == 0.0)
 	{
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 0xFF);
 		return;
 	}
-	if (v == -0.0) {
-		BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
-		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
-		return;
-    }
 
 	if (v == INFINITY)
 	{
-- 
2.43.0


From 42223ef165012aac84239932ff75902b19718d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 24/25] fix: BitStream_DecodeReal returned garbage for decimal
 and malformed encodings and for long mantissas

---
 asn1crt/asn1crt_encoding.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index ce073ed..04da936 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1251,6 +1251,10 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
 	if (!BitStream_ReadByte(pBitStrm, &header))
 		return FALSE;
 
+	/* the special values have no further octets */
+	if (header >= 0x40 && header <= 0x43 && length != 1)
+		return FALSE;
+
 	if (header == 0x40)
 	{
 		*v = INFINITY;
@@ -1273,6 +1277,10 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
         return TRUE;
     }
 
+	/* only the binary encoding is supported */
+	if (!(header & 0x80) || (header & 0x30) == 0x30)
+		return FALSE;
+
 	return DecodeRealAsBinaryEncoding(pBitStrm, length - 1, header, v);
 }
 
@@ -1305,8 +1313,16 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	factor <<= F;
 
 	expLen = (header & 0x03) + 1;
+	if (expLen == 4) {
+		/* the number of exponent octets follows */
+		byte b = 0;
+		if (length < 1 || !BitStream_ReadByte(pBitStrm, &b))
+			return FALSE;
+		length--;
+		expLen = b;
+	}
 
-	if (expLen>length)
+	if (expLen<1 || expLen>3 || expLen>length)
 		return FALSE;
 	expIsNegative = BitStream_PeekBit(pBitStrm);
 	exponent = expIsNegative ? 0xFFFFFFFF : 0;
@@ -1323,8 +1339,13 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
+		/* mantissas that do not fit are not supported */
+		if (N > ((asn1SccUint)-1 >> 8))
+			return FALSE;
 		N = N << 8 | b;
 	}
+	if (N > ((asn1SccUint)-1 >> F))
+		return FALSE;
 
 
 	/*  *v = N*factor * pow(base,exp);*/
-- 
2.43.0


From 39ac69274f16a73ab962ad6c00f6b4bf5e76ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 25/25] hook: loop contracts of the real scaling and mantissa
 loops

---
 asn1crt/asn1crt_encoding.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 04da936..2e79ad2 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1141,11 +1141,15 @@ asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
 	/* scale the value itself: 2^|exponent| alone need not be representable */
 	asn1Real ret = (asn1Real)mantissa;
 
-	while (exponent > 0 && ret > 0.0 && ret < INFINITY) {
+	while (exponent > 0 && ret > 0.0 && ret < INFINITY)
+	ASN1SCC_LOOP(RealUp, exponent, ret)
+	{
 		ret = ret * 2.0;
 		exponent--;
 	}
-	while (exponent < 0 && ret > 0.0) {
+	while (exponent < 0 && ret > 0.0)
+	ASN1SCC_LOOP(RealDown, exponent, ret)
+	{
 		ret = ret / 2.0;
 		exponent++;
 	}
@@ -1335,7 +1339,9 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 
 	length -= expLen;
 
-	for (i = 0; i<length; i++) {
+	for (i = 0; i<length; i++)
+	ASN1SCC_LOOP(RealMantissa, pBitStrm, i, length, N)
+	{
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-- 
2.43.0

