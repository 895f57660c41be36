From efdb06641f99f43c55a1acba330852ead6f35f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 01/12] fix: tweetnacl: do not left-shift negative carries
 (undefined behaviour)

---
 tweetnacl/tweetnacl.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tweetnacl/tweetnacl.c b/tweetnacl/tweetnacl.c
index 92da8a8..09b6676 100644
--- a/tweetnacl/tweetnacl.c
+++ b/tweetnacl/tweetnacl.c
@@ -278,7 +278,7 @@ sv car25519(gf o)
     o[i]+=(1LL<<16);
     c=o[i]>>16;
     o[(i+1)*(i<15)]+=c-1+37*(c-1)*(i==15);
-    o[i]-=c<<16;
+    o[i]-=c*65536;
   }
 }
 
@@ -699,7 +699,7 @@ sv modL(u8 *r,i64 x[64])
     for (j = i - 32;j < i - 12;++j) {
       x[j] += carry - 16 * x[i] * L[j - (i - 32)];
       carry = (x[j] + 128) >> 8;
-      x[j] -= carry << 8;
+      x[j] -= carry * 256;
     }
     x[j] += carry;
     x[i] = 0;
-- 
2.43.0


From 79d9dce3c7da10022bf5e9f9121500aef6552092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 02/12] fix: ed25519: reject signatures whose S is not below
 the group order

S+L used to verify as well, so anybody could turn a valid ed25519, compact
or full hybrid signature into a second valid one for the same message.
---
 tweetnacl/tweetnacl.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tweetnacl/tweetnacl.c b/tweetnacl/tweetnacl.c
index 09b6676..1b49cd1 100644
--- a/tweetnacl/tweetnacl.c
+++ b/tweetnacl/tweetnacl.c
@@ -793,6 +793,14 @@ static int unpackneg(gf r[4],const u8 p[32])
   return 0;
 }
 
+/* RFC 8032, 5.1.7: S must be in [0,L), or S+L verifies as well */
+static int canonical(const u8 *s)
+{
+  int i;
+  for (i = 31;i >= 0;--i) if (s[i] != L[i]) return s[i] < L[i];
+  return 0;
+}
+
 int crypto_sign_open(u8 *m,u64 *mlen,const u8 *sm,u64 n,const u8 *pk)
 {
   int i;
@@ -802,6 +810,7 @@ int crypto_sign_open(u8 *m,u64 *mlen,const u8 *sm,u64 n,const u8 *pk)
   *mlen = -1;
   if (n < 64) return -1;
 
+  if (!canonical(sm + 32)) return -1;
   if (unpackneg(q,pk)) return -1;
 
   FOR(i,n) m[i] = sm[i];
-- 
2.43.0


From 0730766a60589d30330e198b59386163254429ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 03/12] fix: sphincs: crypto_sign must fail when its randomness
 source fails

It ignored the result of crypto_sign_signature, returned 0 and used an
uninitialised signature length.
---
 sphincs/sign.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sphincs/sign.c b/sphincs/sign.c
index e01b7fd..4fcea22 100644
--- a/sphincs/sign.c
+++ b/sphincs/sign.c
@@ -254,7 +254,9 @@ int PQCLEAN_SPHINCSSHAKE256FSIMPLE_CLEAN_crypto_sign(uint8_t *sm, size_t *smlen,
                 const uint8_t *sk) {
     size_t siglen;
 
-    crypto_sign_signature(sm, &siglen, m, mlen, sk);
+    if (crypto_sign_signature(sm, &siglen, m, mlen, sk) != 0) {
+        return -1;
+    }
 
     memmove(sm + SPX_BYTES, m, mlen);
     *smlen = siglen + mlen;
-- 
2.43.0


From a8dfcface2a192a8b96d4df4b06574144bd54802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 04/12] fix: hybrid: seed expander returns -1 for NULL
 arguments like the other calls

---
 hybrid-dilithium-sphincs/hybrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index 90d9c77..e61374f 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -138,6 +138,10 @@ Message is variable length, between 1 to 64 bytes
   * @param[out] expanded seed of length 160 bytes.
   */
 int crypto_sign_dilithium_ed25519_sphincs_keypair_seed_expander(const unsigned char* seed, unsigned char* expandedSeed) {
+	if (seed == NULL || expandedSeed == NULL) {
+		return -1;
+	}
+
 	uint8_t seedTemp[64] = { 0 };
 	uint8_t expandedSeedTemp[128] = { 0 };
 
-- 
2.43.0


From eab665910171286d749a98e22772d1fbe55028fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 05/12] fix: randombytes: /dev/urandom fallback leaked
 descriptors when it failed

---
 random/randombytes.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 504d663..970a093 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -191,7 +191,7 @@ static int randombytes_linux_wait_for_entropy(int device)
 	const int bits = 128;
 	struct pollfd pfd;
 	int fd;
-	FILE *proc_file;
+	FILE *proc_file = NULL;
 	int retcode, retcode_error = 0; // Used as return codes throughout this function
 	int entropy = 0;
 
@@ -227,6 +227,7 @@ static int randombytes_linux_wait_for_entropy(int device)
 	} while (fd == -1 && errno == EINTR); /* EAGAIN will not occur */
 	if (fd == -1) {
 		/* Unrecoverable IO error */
+		if (strategy == PROC) fclose(proc_file);
 		return -1;
 	}
 
@@ -285,7 +286,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 	} while (fd == -1 && errno == EINTR);
 	if (fd == -1) return -1;
 # if defined(__linux__)
-	if (randombytes_linux_wait_for_entropy(fd) == -1) return -1;
+	if (randombytes_linux_wait_for_entropy(fd) == -1) {
+		close(fd);
+		return -1;
+	}
 # endif
 
 	while (n > 0) {
@@ -294,7 +298,10 @@ static int randombytes_linux_randombytes_urandom(void *buf, size_t n)
 		if (tmp == -1 && (errno == EAGAIN || errno == EINTR)) {
 			continue;
 		}
-		if (tmp == -1) return -1; /* Unrecoverable IO error */
+		if (tmp == -1) { /* Unrecoverable IO error */
+			close(fd);
+			return -1;
+		}
 		offset += tmp;
 		n -= tmp;
 	}
-- 
2.43.0


From 4a3ee4e709690e8f50b75b4f3366d290ce3a812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:08 +0000
Subject: [PATCH 06/12] fix: wasm: mem_free wipes the buffer in optimised
 builds too

---
 wasm/hybrid-pqc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wasm/hybrid-pqc.c b/wasm/hybrid-pqc.c
index e29ec10..1ef95e3 100644
--- a/wasm/hybrid-pqc.c
+++ b/wasm/hybrid-pqc.c
@@ -22,7 +22,10 @@ uint64_t* mem_alloc_long_long(size_t size) {
 
 EMSCRIPTEN_KEEPALIVE
 void mem_free(void* ptr, size_t size) {
-	memset(ptr, 0, size);
+	volatile uint8_t* p = (volatile uint8_t*) ptr;
+	while (size-- > 0) { //volatile, since a memset just before free() is removed by the optimizer
+		*p++ = 0;
+	}
  	free(ptr);
 }
 
-- 
2.43.0


From 7773cc926597764d6249cffeedca042fa970b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:34 +0000
Subject: [PATCH 07/12] fix: randombytes: do not close a descriptor or stream
 again after EINTR (double free)

---
 random/randombytes.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 970a093..1abd395 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -260,13 +260,13 @@ static int randombytes_linux_wait_for_entropy(int device)
 			break;
 		}
 	}
-	do {
-		retcode = close(fd);
-	} while (retcode == -1 && errno == EINTR);
+	/* Linux releases the descriptor (and fclose the stream) even when the call
+	 * is interrupted, so neither may be closed a second time. */
+	retcode = close(fd);
+	if (retcode == -1 && errno == EINTR) retcode = 0;
 	if (strategy == PROC) {
-		do {
-			retcode = fclose(proc_file);
-		} while (retcode == -1 && errno == EINTR);
+		retcode = fclose(proc_file);
+		if (retcode == -1 && errno == EINTR) retcode = 0;
 	}
 	if (retcode_error != 0) {
 		return retcode_error;
-- 
2.43.0


From ac7be3caa225b700b83de76805778b38bca20c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:39 +0000
Subject: [PATCH 08/12] fix: tweetnacl: crypto_sign_open counts messages of
 2^31 bytes and more

The copy loops ran an int index against a 64-bit length: for signed messages
of 2^31 bytes and more the index overflowed and genuine signatures were
refused.
---
 tweetnacl/tweetnacl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tweetnacl/tweetnacl.c b/tweetnacl/tweetnacl.c
index 1b49cd1..7b06e2f 100644
--- a/tweetnacl/tweetnacl.c
+++ b/tweetnacl/tweetnacl.c
@@ -803,7 +803,7 @@ static int canonical(const u8 *s)
 
 int crypto_sign_open(u8 *m,u64 *mlen,const u8 *sm,u64 n,const u8 *pk)
 {
-  int i;
+  u64 i;
   u8 t[32],h[64];
   gf p[4],q[4];
 
-- 
2.43.0


From 4cc6055ebcd259d7689f8c3d89c81198fe4f2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:14 +0000
Subject: [PATCH 09/12] fix: randombytes in a browser throws for more than
 65536 bytes (getRandomValues quota)

---
 random/randombytes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 1abd395..fa64d86 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -328,7 +328,9 @@ static int randombytes_js_randombytes_nodejs(void *buf, size_t n) {
 
 		if (typeof window !== 'undefined' && window.crypto && window.crypto.getRandomValues) {
 			var randBuffer = new Uint8Array($1);
-			window.crypto.getRandomValues(randBuffer);
+			for (var i = 0; i < randBuffer.length; i += 65536) { // getRandomValues does not allow more than 65536 bytes
+				window.crypto.getRandomValues(randBuffer.subarray(i, i + 65536));
+			}
 			writeArrayToMemory(randBuffer, $0);
 			return 0;
 		}
-- 
2.43.0


From cc3eac005b6eb881ee6a61aa2bbcc9125725bcb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:14 +0000
Subject: [PATCH 10/12] fix: the Windows entropy fallback leaks the provider
 handle when CryptGenRandom fails

---
 random/randombytes.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index fa64d86..67d079f 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -110,7 +110,10 @@ static int randombytes_win32_randombytes(void* buf, size_t n)
 	while (n > 0) {
 		to_read = (DWORD)(n < MAX_DWORD ? n : MAX_DWORD);
 		tmp = CryptGenRandom(ctx, to_read, (BYTE*)buf);
-		if (tmp == FALSE) return -1;
+		if (tmp == FALSE) {
+			CryptReleaseContext(ctx, 0);
+			return -1;
+		}
 		buf = ((char*)buf) + to_read;
 		n -= to_read;
 	}
-- 
2.43.0


From b4e3a1c9326edf84f242b771a4c471fe9cf64bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:44 +0000
Subject: [PATCH 11/12] fix: randombytes on Windows reports success for 4 GiB
 and more without filling the buffer

---
 random/randombytes.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/random/randombytes.c b/random/randombytes.c
index 67d079f..7b0e0d3 100644
--- a/random/randombytes.c
+++ b/random/randombytes.c
@@ -86,11 +86,18 @@ static int randombytes_win32_randombytes(void* buf, size_t n)
 
 	memset(buf, 0, n);
 
-	Status = BCryptGenRandom(
-		NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
-		buf,                     // Address of the buffer that recieves the random number(s)
-		n,                 // Size of the buffer in bytes
-		BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags                  
+	//BCryptGenRandom takes a 32-bit length
+	size_t offset = 0;
+	ULONG chunk = 0;
+	do {
+		chunk = (ULONG)(n - offset < 0xFFFFFFFF ? n - offset : 0xFFFFFFFF);
+		Status = BCryptGenRandom(
+			NULL,                       // Alg Handle pointer; NUll is passed as BCRYPT_USE_SYSTEM_PREFERRED_RNG flag is used
+			(PUCHAR)buf + offset,       // Address of the buffer that recieves the random number(s)
+			chunk,                      // Size of the buffer in bytes
+			BCRYPT_USE_SYSTEM_PREFERRED_RNG); // Flags
+		offset += chunk;
+	} while (NT_SUCCESS(Status) && offset < n);
 
 	if (NT_SUCCESS(Status))
 	{
-- 
2.43.0


From 422860f75cd20584beb0a7dd1296f151a6e7a908 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 11:04:39 +0000
Subject: [PATCH 12/12] fix: crypto_verify_dilithium accepts signature lengths
 of 2^32 + 2420 on 32-bit platforms

The 64-bit length was handed to a size_t parameter; WebAssembly and 32-bit ARM builds cut it to 32 bits and accepted.
---
 hybrid-dilithium-sphincs/hybrid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hybrid-dilithium-sphincs/hybrid.c b/hybrid-dilithium-sphincs/hybrid.c
index e61374f..0579389 100644
--- a/hybrid-dilithium-sphincs/hybrid.c
+++ b/hybrid-dilithium-sphincs/hybrid.c
@@ -706,6 +706,10 @@ int crypto_verify_dilithium(const unsigned char* m, unsigned long long mlen,
 		return -1;
 	}
 
+	if (smlen != PQCLEAN_DILITHIUM2_CLEAN_CRYPTO_BYTES) { //size_t below would cut off the upper half on 32-bit platforms
+		return -2;
+	}
+
 	int r = PQCLEAN_DILITHIUM2_CLEAN_crypto_sign_verify(sm, smlen, m, mlen, pk);
 	if (r != 0) {
 		return -2;
-- 
2.43.0

