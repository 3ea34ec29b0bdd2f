From 18b4596156af24374194507ae8c360183e37d8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 01/11] fix: main: report errors writing buffered output

Errors from flushing or closing the output (e.g. ENOSPC) were ignored or
only produced a warning, and the utility exited 0 with truncated output.
---
 main.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/main.c b/main.c
index d4c106b..33b0a4f 100644
--- a/main.c
+++ b/main.c
@@ -180,8 +180,13 @@ cleanup:
 	/* Close any files we opened. */
 	if ((infile != stdin) && fclose(infile))
 		warnp("fclose");
-	if ((outfile != stdout) && fclose(outfile))
-		warnp("fclose");
+	if ((outfile != stdout) ? fclose(outfile) : fflush(outfile)) {
+		/* Don't hide an earlier error. */
+		if (rc == SCRYPT_OK)
+			rc = SCRYPT_EWRFILE;
+		else
+			warnp("fclose");
+	}
 
 	/* If we failed, print the right error message and exit. */
 	if (rc != SCRYPT_OK) {
@@ -247,6 +252,10 @@ main(int argc, char * argv[])
 		info = 1;
 	} else if (strcmp(argv[1], "--version") == 0) {
 		fprintf(stdout, "scrypt %s\n", PACKAGE_VERSION);
+		if (fflush(stdout)) {
+			warnp("Error writing file: standard output");
+			exit(1);
+		}
 		exit(0);
 	} else {
 		warn0("First argument must be 'enc', 'dec', or 'info'.");
-- 
2.43.0


From eb7fa360e60a7530261d1c3d14f8e565bd3a4584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 02/11] fix: scryptenc: free the AES key if writing the output
 fails

The expanded AES key was leaked without being zeroed.
---
 lib/scryptenc/scryptenc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index 5f87382..affbff8 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -627,6 +627,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 		HMAC_SHA256_Update(&hctx, buf, readlen);
 		if (fwrite(buf, 1, readlen, outfile) < readlen) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err1;
 		}
@@ -845,6 +846,7 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 		crypto_aesctr_stream(AES, buf, buf, buflen - 32);
 		if (fwrite(buf, 1, buflen - 32, outfile) < buflen - 32) {
 			crypto_aesctr_free(AES);
+			crypto_aes_key_free(key_enc_exp);
 			rc = SCRYPT_EWRFILE;
 			goto err0;
 		}
-- 
2.43.0


From 3c1d9fd421c9091d01bc2c93c68d175631c68cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 03/11] fix: parsenum: reject NaN

A NaN is not between any min and max; "-m nan" hit an assertion failure.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From 03bbd7f42c970153e450b7c0bcba29e51aef8ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 04/11] fix: parsenum: reject negative values for unsigned
 integers

strtoumax() wraps negative numbers, so "-p -18446744073709551615" was
accepted as "-p 1".
---
 libcperciva/util/parsenum.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..9ce3da9 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -2,6 +2,7 @@
 #define PARSENUM_H_
 
 #include <assert.h>
+#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <math.h>
@@ -181,16 +182,23 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
     uintmax_t typemax, int base, int trailing)
 {
 	char * eptr;
+	const char * p;
 	uintmax_t val;
 
 	/* Sanity check. */
 	assert(s != NULL);
 
+	/* Find the sign (if any); strtoumax() accepts negative numbers. */
+	for (p = s; isspace((unsigned char)*p); p++)
+		continue;
+
 	val = strtoumax(s, &eptr, base);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
+	else if ((*p == '-') && (val != 0))
+		errno = ERANGE;
 	return (val);
 }
 
-- 
2.43.0


From 2480686653f9369095a625e7e035c0708cd25ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 05/11] fix: scryptenc: reject invalid parameters in
 printparams

scryptdec_file_printparams() shifted by an unchecked value from the file
(undefined behaviour for logN >= 64) and printed nonsense.
---
 lib/scryptenc/scryptenc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index affbff8..d917d8b 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -334,6 +334,13 @@ scryptdec_file_printparams(FILE * infile)
 	r = be32dec(&header[8]);
 	p = be32dec(&header[12]);
 
+	/* Sanity-check values. */
+	if ((logN < 1) || (logN > 63) || (r == 0) || (p == 0) ||
+	    ((uint64_t)(r) * (uint64_t)(p) >= 0x40000000)) {
+		rc = SCRYPT_EINVAL;
+		goto err0;
+	}
+
 	/* Print parameters. */
 	display_params(logN, r, p, 0, 0, 0);
 
-- 
2.43.0


From e11521380330adcc90401fd034fe01b7db127287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 06/11] fix: scryptenc: avoid integer overflows in
 display_params

The memory and CPU time requirements were computed modulo 2^32 or 2^64.
---
 lib/scryptenc/scryptenc.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index d917d8b..c61e41c 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -72,8 +72,10 @@ display_params(int logN, uint32_t r, uint32_t p, size_t memlimit,
     double opps, double maxtime)
 {
 	uint64_t N = (uint64_t)(1) << logN;
-	uint64_t mem_minimum = 128 * r * N;
-	double expected_seconds = opps > 0 ? (double)(4 * N * r * p) / opps : 0;
+	uint64_t mem_minimum = (N > UINT64_MAX / 128 / r) ? UINT64_MAX :
+	    128 * N * r;
+	double expected_seconds = opps > 0 ?
+	    4.0 * (double)N * (double)r * (double)p / opps : 0;
 	char * human_memlimit = humansize(memlimit);
 	char * human_mem_minimum = humansize(mem_minimum);
 
-- 
2.43.0


From db76bdf65c12a9743135510c9a0028e94eb2b45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 07/11] fix: crypto_scrypt: avoid overflowing the offset into B

i * 128 was computed modulo 2^32, so for p > 2^25 the wrong blocks were
mixed and the wrong key was returned.
---
 lib-platform/crypto/crypto_scrypt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 6057f0a..3beabe8 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -63,7 +63,7 @@ crypto_scrypt_internal(const uint8_t * passwd, size_t passwdlen,
 	uint32_t * V;
 	uint32_t * XY;
 	size_t r = _r, p = _p;
-	uint32_t i;
+	size_t i;
 
 	/* Sanity-check parameters. */
 	if ((r == 0) || (p == 0)) {
-- 
2.43.0


From 50785022fd28fe78e68a4e127fd1e5147d112f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 08/11] fix: main: ignore explicit parameters when decrypting

"scrypt dec --logN 14 -r 8 -p 1" died with an assertion failure; the man
page says that decryption always uses the values from the header.
---
 main.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/main.c b/main.c
index 33b0a4f..d95e889 100644
--- a/main.c
+++ b/main.c
@@ -355,6 +355,13 @@ main(int argc, char * argv[])
 		goto err0;
 	}
 
+	/* When decrypting, we always use the values from the header. */
+	if (dec) {
+		params.logN = 0;
+		params.r = 0;
+		params.p = 0;
+	}
+
 	/* We can't have a maxmemfrac of 0. */
 	if (params.maxmemfrac == 0.0) {
 		warn0("-m must be greater than 0");
-- 
2.43.0


From 07baaf88ec8e0f90608fd126d5176c3a2a7b1d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 09/11] fix: crypto_scrypt: don't abort if the self-test lacks
 memory

---
 lib-platform/crypto/crypto_scrypt.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib-platform/crypto/crypto_scrypt.c b/lib-platform/crypto/crypto_scrypt.c
index 3beabe8..8e6ad10 100644
--- a/lib-platform/crypto/crypto_scrypt.c
+++ b/lib-platform/crypto/crypto_scrypt.c
@@ -191,6 +191,10 @@ static struct scrypt_test {
 	}
 };
 
+/*
+ * Return 0 if ${smix} works, 1 if it is broken, or -1 (with errno set) if we
+ * could not test it.
+ */
 static int
 testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 {
@@ -204,30 +208,35 @@ testsmix(void (* smix)(uint8_t *, size_t, uint64_t, void *, void *))
 		return (-1);
 
 	/* Does it match? */
-	return (memcmp(testcase.result, hbuf, TESTLEN));
+	return (memcmp(testcase.result, hbuf, TESTLEN) ? 1 : 0);
 }
 
-static void
+static int
 selectsmix(void)
 {
+	int rc;
 
 #ifdef CPUSUPPORT_X86_SSE2
 	/* If we're running on an SSE2-capable CPU, try that code. */
 	if (cpusupport_x86_sse2()) {
 		/* If SSE2ized smix works, use it. */
-		if (!testsmix(crypto_scrypt_smix_sse2)) {
+		if ((rc = testsmix(crypto_scrypt_smix_sse2)) == 0) {
 			smix_func = crypto_scrypt_smix_sse2;
-			return;
+			return (0);
 		}
+		if (rc == -1)
+			return (-1);
 		warn0("Disabling broken SSE2 scrypt support - please report bug!");
 	}
 #endif
 
 	/* If generic smix works, use it. */
-	if (!testsmix(crypto_scrypt_smix)) {
+	if ((rc = testsmix(crypto_scrypt_smix)) == 0) {
 		smix_func = crypto_scrypt_smix;
-		return;
+		return (0);
 	}
+	if (rc == -1)
+		return (-1);
 	warn0("Generic scrypt code is broken - please report bug!");
 
 	/* If we get here, something really bad happened. */
@@ -249,8 +258,8 @@ crypto_scrypt(const uint8_t * passwd, size_t passwdlen,
     uint8_t * buf, size_t buflen)
 {
 
-	if (smix_func == NULL)
-		selectsmix();
+	if ((smix_func == NULL) && selectsmix())
+		return (-1);
 
 	return (crypto_scrypt_internal(passwd, passwdlen, salt, saltlen, N,
 	    _r, _p, buf, buflen, smix_func));
-- 
2.43.0


From abac8cfebe71ec5581f09c3827b104a0cab3a400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 10/11] fix: readpass_file: detect read errors after the first
 line

A read error while checking for a second line was taken for the end of
the file, so a passphrase file which could not be read completely was
accepted.
---
 libcperciva/util/readpass_file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libcperciva/util/readpass_file.c b/libcperciva/util/readpass_file.c
index 957502a..965bbb6 100644
--- a/libcperciva/util/readpass_file.c
+++ b/libcperciva/util/readpass_file.c
@@ -46,6 +46,12 @@ readpass_file(char ** passwd, const char * filename)
 		goto err2;
 	}
 
+	/* Make sure that we really reached the end of the file. */
+	if (ferror(f)) {
+		warnp("fread(%s)", filename);
+		goto err2;
+	}
+
 	/* Close the file. */
 	if (fclose(f)) {
 		warnp("fclose(%s)", filename);
-- 
2.43.0


From bd87593bc4ed20647aa0d44944783c6034d931c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:29 +0000
Subject: [PATCH 11/11] fix: wipe the HMAC context when file encryption or
 decryption fails

The context still holds the derived HMAC key XOR 0x5c in its buffer.
---
 lib/scryptenc/scryptenc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/scryptenc/scryptenc.c b/lib/scryptenc/scryptenc.c
index c61e41c..ec0db11 100644
--- a/lib/scryptenc/scryptenc.c
+++ b/lib/scryptenc/scryptenc.c
@@ -664,6 +664,7 @@ scryptenc_file(FILE * infile, FILE * outfile,
 	return (SCRYPT_OK);
 
 err1:
+	insecure_memzero(&hctx, sizeof(HMAC_SHA256_CTX));
 	insecure_memzero(dk, 64);
 
 	/* Failure! */
@@ -890,6 +891,8 @@ scryptdec_file_copy(struct scryptdec_file_cookie * C, FILE * outfile)
 	return (SCRYPT_OK);
 
 err0:
+	insecure_memzero(&hctx, sizeof(HMAC_SHA256_CTX));
+
 	/* Failure! */
 	return (rc);
 }
-- 
2.43.0

