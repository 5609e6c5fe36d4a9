From f0f56d1b3b37d333e0dc7c843b816682330bc55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 01/15] fix: BLAKE1 counter when the padding spans two blocks

When the last partial block leaves no room for the length field, the padding
takes two blocks. The first of them still holds message bits and must be
compressed with the total bit count; both were compressed with a zero counter,
giving a wrong digest for every message whose length modulo the block size is
in 56..63 (224, 256) or 112..127 (384, 512).
---
 src/blake1_224.h | 5 ++++-
 src/blake1_256.h | 5 ++++-
 src/blake1_384.h | 5 ++++-
 src/blake1_512.h | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/blake1_224.h b/src/blake1_224.h
index 697524b..336bdb5 100644
--- a/src/blake1_224.h
+++ b/src/blake1_224.h
@@ -464,7 +464,10 @@ namespace Blake1_224_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const uint32_t nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings may span over 2 blocks, only count message bits in the current block
+			const size_t messageEnd = data.size() - paddingLen;
+			const size_t blockBegin = iter * BLOCK_SIZE;
+			const size_t nonPaddingBits = (messageEnd > blockBegin) ? (std::min<size_t>((messageEnd - blockBegin), BLOCK_SIZE) * 8) : 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_256.h b/src/blake1_256.h
index 31e21d8..8e3a3e6 100644
--- a/src/blake1_256.h
+++ b/src/blake1_256.h
@@ -466,7 +466,10 @@ namespace Blake1_256_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings may span over 2 blocks, only count message bits in the current block
+			const size_t messageEnd = data.size() - paddingLen;
+			const size_t blockBegin = iter * BLOCK_SIZE;
+			const size_t nonPaddingBits = (messageEnd > blockBegin) ? (std::min<size_t>((messageEnd - blockBegin), BLOCK_SIZE) * 8) : 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_384.h b/src/blake1_384.h
index 066d426..70d7b66 100644
--- a/src/blake1_384.h
+++ b/src/blake1_384.h
@@ -531,7 +531,10 @@ namespace Blake1_384_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings may span over 2 blocks, only count message bits in the current block
+			const size_t messageEnd = data.size() - paddingLen;
+			const size_t blockBegin = iter * BLOCK_SIZE;
+			const size_t nonPaddingBits = (messageEnd > blockBegin) ? (std::min<size_t>((messageEnd - blockBegin), BLOCK_SIZE) * 8) : 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
diff --git a/src/blake1_512.h b/src/blake1_512.h
index e2ffe38..80e08f9 100644
--- a/src/blake1_512.h
+++ b/src/blake1_512.h
@@ -533,7 +533,10 @@ namespace Blake1_512_NS
 				cTable[0], cTable[1], cTable[2], cTable[3], cTable[4], cTable[5], cTable[6], cTable[7]
 			};
 
-			const int nonPaddingBits = (BLOCK_SIZE - paddingLen) * 8;
+			// paddings may span over 2 blocks, only count message bits in the current block
+			const size_t messageEnd = data.size() - paddingLen;
+			const size_t blockBegin = iter * BLOCK_SIZE;
+			const size_t nonPaddingBits = (messageEnd > blockBegin) ? (std::min<size_t>((messageEnd - blockBegin), BLOCK_SIZE) * 8) : 0;
 			m_sizeCounter += nonPaddingBits;
 			if (nonPaddingBits > 0)
 			{
-- 
2.43.0


From 88edaeaff28fdb31063f8e2e842f1fea674fd4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 02/15] fix: FNV-0 reset() must restore the zero offset basis

reset() left the hash value of the FNV-0 variants untouched, so a reused
object continued from the previous message instead of starting over.
---
 src/fnv.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnv.h b/src/fnv.h
index 7b42bae..2dc9f5f 100644
--- a/src/fnv.h
+++ b/src/fnv.h
@@ -146,6 +146,8 @@ namespace FNVHASH_NS
 	template <typename DigestType, int Variant>
 	constexpr void FNVHash<DigestType, Variant>::reset()
 	{
+		m_hash = 0;
+
 		if (Variant >= 1)
 		{
 			switch (sizeof(DigestType))
-- 
2.43.0


From 2e2bde2dcdf4987942c4ae0be869525a2f1786b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 03/15] fix: Tiger 128 and 160 toArray() writes past the result
 array

The whole 192-bit state was copied into the 16 or 20 byte result array.
---
 src/tiger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tiger.h b/src/tiger.h
index 34cbb61..8013e03 100644
--- a/src/tiger.h
+++ b/src/tiger.h
@@ -516,9 +516,10 @@ namespace Tiger_NS
 
 		ResultArrayType ret {};
 		auto retPtr = ret.data();
+		const auto retEnd = retPtr + ret.size();
 		for (const auto i : state)
 		{
-			for (int j = 0, jMax = dataSize; j < jMax; ++j)
+			for (int j = 0, jMax = dataSize; (j < jMax) && (retPtr != retEnd); ++j)
 				*(retPtr++) = ror<Byte>(i, (j * 8));
 		}
 		return ret;
-- 
2.43.0


From 1a2d92db0ef47abaf8fd1e0583077e1f49351e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 04/15] fix: CSHAKE and TupleHash reset() must keep the name
 and customization

reset() dropped the encoded function name and customization string, so a reused
object computed a different function than a newly constructed one.
---
 src/cshake.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/cshake.h b/src/cshake.h
index a20afe3..42745f9 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -126,6 +126,7 @@ namespace CShake_NS
 
 			std::unique_ptr<S> m_shake;
 			std::unique_ptr<K> m_keccak;
+			std::unique_ptr<const K> m_initialKeccak;  // state right after absorbing the name & customization strings
 	};
 
 
@@ -183,6 +184,8 @@ namespace CShake_NS
 		const Buffer<Byte, 1> zero {0};
 		for (int i = 0; i < static_cast<int>(bytepadCount(length, P)); ++i)
 			addData({zero.data(), zero.size()});
+
+		m_initialKeccak = std::make_unique<const K>(*m_keccak);
 	}
 
 	template <typename S, typename K, int P>
@@ -193,6 +196,9 @@ namespace CShake_NS
 			m_shake = std::make_unique<S>(*other.m_shake);
 		else
 			m_keccak = std::make_unique<K>(*other.m_keccak);
+
+		if (m_customized)
+			m_initialKeccak = std::make_unique<const K>(*other.m_initialKeccak);
 	}
 
 	template <typename S, typename K, int P>
@@ -203,6 +209,7 @@ namespace CShake_NS
 			std::swap(m_shake, other.m_shake);
 		else
 			std::swap(m_keccak, other.m_keccak);
+		std::swap(m_initialKeccak, other.m_initialKeccak);
 	}
 
 	template <typename S, typename K, int P>
@@ -215,6 +222,9 @@ namespace CShake_NS
 				*m_shake = *other.m_shake;
 			else
 				*m_keccak = *other.m_keccak;
+
+			if (m_customized)
+				m_initialKeccak = std::make_unique<const K>(*other.m_initialKeccak);
 		}
 		return *this;
 	}
@@ -229,6 +239,7 @@ namespace CShake_NS
 				std::swap(m_shake, other.m_shake);
 			else
 				std::swap(m_keccak, other.m_keccak);
+			std::swap(m_initialKeccak, other.m_initialKeccak);
 		}
 		return *this;
 	}
@@ -239,7 +250,7 @@ namespace CShake_NS
 		if (!m_customized)
 			m_shake->reset();
 		else
-			m_keccak->reset();
+			*m_keccak = *m_initialKeccak;
 	}
 
 	template <typename S, typename K, int P>
-- 
2.43.0


From 2c4092be452fec671d78f1c2bd45c84b3daa7192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 05/15] fix: CSHAKE copy assignment between plain and
 customized objects

Only the member selected by the source was assigned through, which dereferenced
a null pointer when the target held the other kind (or was moved from).
---
 src/cshake.h | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 42745f9..6d2c220 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -216,16 +216,7 @@ namespace CShake_NS
 	constexpr CShake<S, K, P>& CShake<S, K, P>::operator=(const CShake<S, K, P> &other)
 	{
 		if (this != &other)
-		{
-			m_customized = other.m_customized;
-			if (!m_customized)
-				*m_shake = *other.m_shake;
-			else
-				*m_keccak = *other.m_keccak;
-
-			if (m_customized)
-				m_initialKeccak = std::make_unique<const K>(*other.m_initialKeccak);
-		}
+			*this = CShake(other);
 		return *this;
 	}
 
-- 
2.43.0


From d6691767ecf4a553d35b4596fec1a5dadbcfb4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 06/15] fix: SHAKE objects of different digest length must not
 compare equal

operator== ignored the digest length, so two finalized objects whose digests
differ compared equal.
---
 src/sha3.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sha3.h b/src/sha3.h
index ada4988..2f090df 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -233,6 +233,9 @@ namespace SHA3_NS
 
 			friend constexpr bool operator==(const Keccak &left, const Keccak &right)
 			{
+				if (left.m_digestLength != right.m_digestLength)
+					return false;
+
 				for (int y = 0; y < 5; ++y)
 				{
 					for (int x = 0; x < 5; ++x)
-- 
2.43.0


From 8d2a5b96273405263caa212e4be34d474f244975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 07/15] fix: toString() of a zero length SHAKE digest

front() must not be called on an empty string.
---
 src/sha3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sha3.h b/src/sha3.h
index 2f090df..9929c97 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -369,7 +369,7 @@ namespace SHA3_NS
 		std::string ret;
 		ret.resize(2 * v.size());
 
-		auto *retPtr = &ret.front();
+		auto *retPtr = &ret[0];
 		for (const auto c : v)
 		{
 			const Byte upper = ror<Byte>(c, 4);
-- 
2.43.0


From e825c3e113bc716165a395db060e8fa4a9e53661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 08/15] fix: TupleHash output length in bits overflows int

Digests of 2^28 bytes or more were computed with a wrong right_encode(L).
---
 src/tuple_hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index f5390c8..a5d403c 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -151,7 +151,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::finalize()
 	{
-		const auto encoded = rightEncode(m_digestLength * 8);
+		const auto encoded = rightEncode(static_cast<uint64_t>(m_digestLength) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		m_cshake.finalize();
 		return (*this);
-- 
2.43.0


From c583f4a386985f7849fa1c31e6500803e65416d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 09/15] fix: hash -cshake-*: pass the customization string as
 customization

It was passed as the function name.
---
 src/program/main.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 519f261..9e8c74c 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -290,7 +290,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_128(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
@@ -309,7 +309,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 				return false;
 			}
 
-			readNPrint(Chocobo1::CSHAKE_256(digestLength, argv[3]), argv[4]);
+			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
 		}
 
-- 
2.43.0


From 995509ededc674ac8a3e3cc2304b207fb9f949ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 10/15] fix: hash: do not print a digest when the input cannot
 be read

A missing or unreadable file was reported as the digest of an empty (or
truncated) message, with exit status 0.
---
 src/program/main.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 9e8c74c..5574162 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -168,7 +168,16 @@ Hash getHash(const std::string &hash)
 
 bool runHash(const Hash hash, const int argc, const char *argv[])
 {
-	const auto readNPrint = [](auto hash, const std::string &filename) -> void
+	const auto exitOnReadError = [](const std::istream &stream, const std::string &filename) -> void
+	{
+		if (stream.eof() && !ferror(stdin))
+			return;
+
+		fprintf(stderr, "Error: failed to read \"%s\"\n", filename.c_str());
+		exit(EXIT_FAILURE);
+	};
+
+	const auto readNPrint = [&exitOnReadError](auto hash, const std::string &filename) -> void
 	{
 		std::unique_ptr<std::istream, void (*)(std::istream *)> inStream {nullptr, [](auto) {}};
 		if (filename == "-")
@@ -184,10 +193,11 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			hash.addData(buf.get(), inStream->gcount());
 		}
 
+		exitOnReadError(*inStream, filename);
 		printf("%s  %s\n", hash.finalize().toString().c_str(), filename.c_str());
 	};
 
-	const auto readAllNPrint = [](auto hash, const std::string &filename) -> void
+	const auto readAllNPrint = [&exitOnReadError](auto hash, const std::string &filename) -> void
 	{
 		std::unique_ptr<std::istream, void (*)(std::istream *)> inStream {nullptr, [](auto) {}};
 		if (filename == "-")
@@ -206,6 +216,7 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			buf.insert(buf.end(), tmp.get(), (tmp.get() + inStream->gcount()));
 		}
 
+		exitOnReadError(*inStream, filename);
 		printf("%s  %s\n", hash.nextData(buf.data(), buf.size()).finalize().toString().c_str(), filename.c_str());
 	};
 
-- 
2.43.0


From 2d5de163b3eeee3e868ac9d0cf48b724834eccee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:59 +0000
Subject: [PATCH 11/15] fix: hash: reject out of range digest lengths

Values that do not fit an int and negative values ended in an uncaught exception.
---
 src/program/main.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 5574162..2ea824c 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -296,10 +296,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_128(digestLength, {}, argv[3]), argv[4]);
 			return true;
@@ -315,10 +317,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::CSHAKE_256(digestLength, {}, argv[3]), argv[4]);
 			return true;
@@ -534,10 +538,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_128(digestLength), argv[3]);
 			return true;
@@ -553,10 +559,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readNPrint(Chocobo1::SHAKE_256(digestLength), argv[3]);
 			return true;
@@ -635,10 +643,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_128(digestLength, argv[3]), argv[4]);
 			return true;
@@ -654,10 +664,12 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			{
 				digestLength = std::stoi(argv[2]);
 			}
-			catch (const std::invalid_argument &e)
+			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
 				return false;
 			}
+			if (digestLength < 0)
+				return false;
 
 			readAllNPrint(Chocobo1::TupleHash_256(digestLength, argv[3]), argv[4]);
 			return true;
-- 
2.43.0


From d084c50c8932e57b59718bd4582f965f6ebf53b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 12/15] fix: reject digest lengths with trailing characters in
 the hash program

std::stoi() stops at the first character that is not a digit, so a wrong
argument such as "32abc" yielded a digest instead of the usage text.
---
 src/program/main.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index 2ea824c..ba6aefc 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -294,7 +294,10 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			int digestLength = 0;
 			try
 			{
-				digestLength = std::stoi(argv[2]);
+				std::size_t parsed = 0;
+				digestLength = std::stoi(argv[2], &parsed);
+				if (argv[2][parsed] != '\0')
+					return false;
 			}
 			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
@@ -315,7 +318,10 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			int digestLength = 0;
 			try
 			{
-				digestLength = std::stoi(argv[2]);
+				std::size_t parsed = 0;
+				digestLength = std::stoi(argv[2], &parsed);
+				if (argv[2][parsed] != '\0')
+					return false;
 			}
 			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
@@ -536,7 +542,10 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			int digestLength = 0;
 			try
 			{
-				digestLength = std::stoi(argv[2]);
+				std::size_t parsed = 0;
+				digestLength = std::stoi(argv[2], &parsed);
+				if (argv[2][parsed] != '\0')
+					return false;
 			}
 			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
@@ -557,7 +566,10 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			int digestLength = 0;
 			try
 			{
-				digestLength = std::stoi(argv[2]);
+				std::size_t parsed = 0;
+				digestLength = std::stoi(argv[2], &parsed);
+				if (argv[2][parsed] != '\0')
+					return false;
 			}
 			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
@@ -641,7 +653,10 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			int digestLength = 0;
 			try
 			{
-				digestLength = std::stoi(argv[2]);
+				std::size_t parsed = 0;
+				digestLength = std::stoi(argv[2], &parsed);
+				if (argv[2][parsed] != '\0')
+					return false;
 			}
 			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
@@ -662,7 +677,10 @@ bool runHash(const Hash hash, const int argc, const char *argv[])
 			int digestLength = 0;
 			try
 			{
-				digestLength = std::stoi(argv[2]);
+				std::size_t parsed = 0;
+				digestLength = std::stoi(argv[2], &parsed);
+				if (argv[2][parsed] != '\0')
+					return false;
 			}
 			catch (const std::logic_error &e)  // `std::invalid_argument` or `std::out_of_range`
 			{
-- 
2.43.0


From 82f13507b65a0ed5fb613458af4c61966d0994de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:12 +0000
Subject: [PATCH 13/15] fix: cSHAKE and TupleHash: string lengths in bits
 overflowed on 32-bit machines

`size() * 8` was computed in `std::size_t`, so on a 32-bit machine the encoded
length of a customization string or tuple element of 2^29 bytes or more wrapped
and the digest differed from the one of a 64-bit machine.
---
 src/cshake.h     | 2 +-
 src/tuple_hash.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index 6d2c220..af17a8f 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -161,7 +161,7 @@ namespace CShake_NS
 
 		const auto processString = [this](const std::string &str, size_t &length) -> void
 		{
-			const auto encodedStr = leftEncode(str.size() * 8);
+			const auto encodedStr = leftEncode(static_cast<uint64_t>(str.size()) * 8);
 			addData({encodedStr.data(), encodedStr.size()});
 			length += encodedStr.size();
 			addData(str.data(), str.size());
diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index a5d403c..1701558 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -188,7 +188,7 @@ namespace TupleHash_NS
 	template <typename Alg>
 	constexpr TupleHash<Alg>& TupleHash<Alg>::nextData(const Span<const Byte> inData)
 	{
-		const auto encoded = Chocobo1::Hash::CShake_NS::leftEncode(inData.size() * 8);
+		const auto encoded = Chocobo1::Hash::CShake_NS::leftEncode(static_cast<uint64_t>(inData.size()) * 8);
 		addDataImpl({encoded.data(), encoded.size()});
 		addDataImpl(inData);
 
-- 
2.43.0


From 9cc6b4ce51a494908a3c18b8822a393062694d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:35 +0000
Subject: [PATCH 14/15] fix: SHA-3 family: reading a digest as an integer ended
 the process when memory was short

The conversion operators (and so `std::hash`) are `noexcept`, but made a copy of
the digest with `toVector()`: a failed allocation there called
`std::terminate()`. The digest is now read where it is.
---
 src/cshake.h     | 9 +--------
 src/sha3.h       | 2 +-
 src/tuple_hash.h | 9 +--------
 3 files changed, 3 insertions(+), 17 deletions(-)

diff --git a/src/cshake.h b/src/cshake.h
index af17a8f..c5f9878 100644
--- a/src/cshake.h
+++ b/src/cshake.h
@@ -278,14 +278,7 @@ namespace CShake_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
-		T ret = 0;
-		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
-		{
-			ret <<= 8;
-			ret |= digest[i];
-		}
-		return ret;
+		return m_customized ? static_cast<T>(*m_keccak) : static_cast<T>(*m_shake);
 	}
 
 	template <typename S, typename K, int P>
diff --git a/src/sha3.h b/src/sha3.h
index 9929c97..bf904c9 100644
--- a/src/sha3.h
+++ b/src/sha3.h
@@ -394,7 +394,7 @@ namespace SHA3_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
+		const auto &digest = m_final;
 		T ret = 0;
 		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
 		{
diff --git a/src/tuple_hash.h b/src/tuple_hash.h
index 1701558..1cbb6e6 100644
--- a/src/tuple_hash.h
+++ b/src/tuple_hash.h
@@ -175,14 +175,7 @@ namespace TupleHash_NS
 	{
 		static_assert(std::is_unsigned<T>::value, "");
 
-		const auto digest = toVector();
-		T ret = 0;
-		for (int i = 0, iMax = static_cast<int>(std::min(sizeof(T), digest.size())); i < iMax; ++i)
-		{
-			ret <<= 8;
-			ret |= digest[i];
-		}
-		return ret;
+		return static_cast<T>(m_cshake);
 	}
 
 	template <typename Alg>
-- 
2.43.0


From ecb864998fdcff67e00138e09fc6753fbfc27793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:29 +0000
Subject: [PATCH 15/15] fix: hash: exit with a failure status when the digest
 cannot be written

---
 src/program/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/program/main.cpp b/src/program/main.cpp
index ba6aefc..80c0470 100644
--- a/src/program/main.cpp
+++ b/src/program/main.cpp
@@ -100,6 +100,13 @@ int main(const int argc, const char *argv[])
 	const bool ret = runHash(hash, argc, argv);
 	goToFail(!ret);
 
+	const bool flushed = (fflush(stdout) == 0);
+	if (!flushed || ferror(stdout))
+	{
+		fprintf(stderr, "Error: failed to write the digest\n");
+		return EXIT_FAILURE;
+	}
+
 	return 0;
 }
 
-- 
2.43.0

