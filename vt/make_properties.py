import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=hook))
    P.append(d)
KDF="lib-platform/crypto/crypto_scrypt.c"; ENC="lib/scryptenc/scryptenc.c"
p("C01","The key derivation function computes scrypt (RFC 7914) exactly",
 "For every passphrase, salt, valid (N, r, p) and output length, the library KDF (scrypt_kdf / crypto_scrypt) writes exactly the bytes RFC 7914 defines, nothing beyond the requested length, and returns 0. The result does not depend on which CPU-specific code path is selected, on buffer alignment, on earlier calls in the process, or on how large N, r and p are.",
 ["inputs","configurations","histories"],"all passwords, salts (any length incl. 0 and > 64), N=2^k, r, p with r*p<2^30 that fit in memory, all output lengths up to (2^32-1)*32, each of the generic / SSE2 / no-mmap builds, sequences of calls",
 "test_scrypt checks four fixed RFC vectors on one CPU path; it never varies lengths, alignment, r/p mixes, V > 4 GiB or p > 2^25.",
 [KDF,"lib/crypto/crypto_scrypt_smix.c","lib/crypto/crypto_scrypt_smix_sse2.c","libcperciva/alg/sha256.c"],
 [("crypto_scrypt_internal: PBKDF2, p times smix, PBKDF2",KDF),("smix / blockmix_salsa8 / salsa20_8 / integerify (generic and SSE2)","lib/crypto/crypto_scrypt_smix*.c"),("selectsmix self test and dispatch",KDF)],
 ["output buffer and return value of scrypt_kdf()"])
p("C02","The KDF accepts exactly the valid parameters and fails cleanly otherwise",
 "A call with N not a power of two greater than 1, r = 0, p = 0, r*p >= 2^30, an output longer than (2^32-1)*32 bytes, or sizes whose memory cannot be addressed or allocated returns -1 with errno set and never crashes, hangs or writes to the output buffer. Every other parameter set is accepted and returns 0.",
 ["inputs","fault_sequences"],"all 64-bit N, all 32-bit r and p, all output lengths, with and without enough memory available",
 "No test passes an invalid parameter to the KDF; the overflow checks depend on corner values of 64-bit products.",
 [KDF],[("parameter sanity checks (EINVAL, EFBIG, ENOMEM)",KDF),("allocation failure paths err0..err2",KDF)],["return value, errno and output buffer of scrypt_kdf()"])
p("C03","SHA-256, HMAC-SHA256 and PBKDF2 are correct for any input and chunking",
 "SHA-256 and HMAC-SHA256 computed one-shot or incrementally over any partition of the message, for any message and key length (including messages longer than 2^32 bits and 2^32 bytes), and PBKDF2-HMAC-SHA256 for any password, salt, iteration count and output length, equal the standard definitions. This holds on every CPU-specific code path, for interleaved contexts and any buffer alignment.",
 ["inputs","configurations","histories"],"all messages, keys, partitions into updates, alignments, iteration counts, output lengths; SHANI, SSE2 and portable builds",
 "Only exercised indirectly through a handful of scrypt vectors and small files on the CPU path of the build machine.",
 ["libcperciva/alg/sha256.c","libcperciva/alg/sha256_shani.c","libcperciva/alg/sha256_sse2.c","libcperciva/util/sysendian.h"],
 [("SHA256_Update buffering, SHA256_Pad, bit counter","libcperciva/alg/sha256.c"),("HMAC key > 64 bytes hashing","libcperciva/alg/sha256.c"),("PBKDF2_SHA256 block loop","libcperciva/alg/sha256.c"),("SHA256_Transform variants","libcperciva/alg/sha256_{shani,sse2}.c")],
 ["digests and derived bytes"])
p("C04","AES and AES-CTR are correct for any key, nonce, length and chunking",
 "Encrypting a block with an AES-128 or AES-256 key equals FIPS-197 AES, and streaming data through AES-CTR in pieces of any sizes, in place or not, from any alignment, equals XOR with the big-endian nonce||counter AES-CTR key stream at every position, including across all counter carries. Re-initialising a stream (with a new key or keeping the old one), one-shot buffers and several live streams give the same results, and so do the hardware and software implementations.",
 ["inputs","histories","configurations"],"all keys (128/256 bit), 64-bit nonces, stream positions, partitions, overlaps (identical buffers), sequences of re-initialisations; AES-NI and OpenSSL builds",
 "Tests only encrypt small files with nonce 0 in 64 KiB pieces on one CPU path.",
 ["libcperciva/crypto/crypto_aes.c","libcperciva/crypto/crypto_aes_aesni.c","libcperciva/crypto/crypto_aesctr.c","libcperciva/crypto/crypto_aesctr_aesni.c","libcperciva/crypto/crypto_aesctr_shared.c"],
 [("key expansion and dispatch","libcperciva/crypto/crypto_aes*.c"),("counter handling, pre/whole/post block","libcperciva/crypto/crypto_aesctr_shared.c"),("AES-NI bulk stream","libcperciva/crypto/crypto_aesctr_aesni.c")],
 ["ciphertext bytes"])
p("C05","Encrypted data conforms byte for byte to the published format",
 "Every file or buffer produced by encryption is exactly the FORMAT layout: magic, version 0, log2(N), big-endian r and p, 32-byte salt, header checksum, header HMAC, plaintext XOR AES256-CTR with nonce 0, trailing HMAC, and is 128 bytes longer than the plaintext; so an independent implementation decrypts it. Conversely every file that conforms to FORMAT, whatever implementation produced it and whatever valid parameters it uses, is decrypted to its plaintext, and the parameters reported back to the caller are the ones in the header.",
 ["inputs"],"all plaintexts, passphrases, salts and valid parameters, in both directions, through the buffer, FILE and command-line interfaces",
 "Tests decrypt one reference file and compare round trips; a symmetric deviation in encryption and decryption passes them.",
 [ENC,"FORMAT","libcperciva/util/sysendian.h"],[("scryptenc_setup / scryptdec_setup header layout",ENC),("body encryption and HMAC coverage in the four enc/dec functions",ENC)],["ciphertext bytes, plaintext bytes, returned parameters"])
p("C06","Decryption inverts encryption for all data through every interface",
 "For any data (including empty and larger than any internal block), passphrase and parameters, encrypting and then decrypting with the same passphrase returns success and exactly the original data and length, for every combination of buffer, FILE, prepare-then-copy and command-line interfaces. This holds however the input arrives (short reads, pipes) and whatever other operations, successful or failed, the process performed before; encryption never touches bytes outside the documented output size.",
 ["inputs","histories","schedules"],"all data lengths (block boundaries 65536 +- 32 and multiples), passphrases incl. empty, I/O chunkings, interface combinations, operation histories",
 "The tests round-trip one small file; block boundaries, short reads and mixed interfaces are never exercised.",
 [ENC,"main.c"],[("ENCBLOCK streaming loop and 32-byte hold-back",ENC),("scryptenc_buf / scryptdec_buf",ENC)],["plaintext, lengths and return codes"])
p("C07","Tampered data or a wrong passphrase is never reported as success",
 "Any change to an encrypted file - modified, swapped, inserted, appended or removed bytes anywhere in header, body or tag - and any wrong passphrase makes every decryption interface report failure and the utility exit non-zero; a wrong passphrase (or modified header HMAC) is reported as an incorrect passphrase, a bad magic, checksum, parameter, length or final tag as invalid data, and an unknown version byte as an unrecognised version. Byte comparison used for this treats buffers as equal only if every byte is equal.",
 ["inputs"],"all single and multi-byte modifications, truncations, extensions, splices of two files, header edits with recomputed checksum, all non-equivalent passphrases, buffer / FILE / command line",
 "Tests try one wrong passphrase and one non-scrypt file.",
 [ENC,"libcperciva/crypto/crypto_verify_bytes.c","main.c"],[("checksum, header HMAC and trailing HMAC verification",ENC),("crypto_verify_bytes","libcperciva/crypto/crypto_verify_bytes.c")],["return code, exit status"])
p("C08","Arbitrary bytes given to decryption or info never cause undefined behaviour",
 "Whatever bytes are given to the decryption interfaces or to info, they terminate with the documented classification of that input without any memory error, undefined behaviour, assertion failure, leak, or access outside the given buffers. In particular hostile parameter fields cannot cause out-of-range shifts, overflowed sizes or excessive resource use beyond the configured limits.",
 ["inputs"],"all byte strings, lengths 0 upward, all header field values, with and without force, buffer and FILE interfaces and info",
 "Tests use one malformed input and no sanitizer; hostile headers with valid checksums are never built.",
 [ENC,KDF],[("scryptdec_file_load_header, scryptdec_setup, checkparams",ENC),("display_params",ENC)],["sanitizer reports, return codes"])
p("C09","A failed header or passphrase check leaves the output untouched",
 "When decryption is refused before the body is processed (input missing or unreadable, not a scrypt file, bad version, checksum or parameters, resource limits, wrong passphrase, passphrase unavailable), no output file is created, an existing output file keeps its contents, and nothing is written to standard output. The same holds for any command line that is rejected.",
 ["inputs","fault_sequences"],"all early-failure causes x output destination (absent file, existing file, stdout) for dec, and rejected command lines for all modes",
 "Tests check only that no file appears for one bad passphrase and one bad file; existing output files and other causes are not covered.",
 ["main.c",ENC],[("scryptdec_file_prep before opening the output","main.c:scrypt_mode_enc_dec")],["output file contents, stdout"])
p("C10","Decryption honours the memory and CPU limits exactly",
 "Without force, decryption of parameters (N, r, p) proceeds if and only if 128*N*r bytes fit in the allowed memory and 4*N*r*p salsa20/8 cores fit in the estimated speed times the time limit; otherwise it fails, before doing the work, with too-much-memory, too-slow or both, according to which limits are exceeded. With force these limits are ignored entirely, and invalid parameters are rejected in either case.",
 ["inputs","configurations"],"all valid (logN, r, p), memory limits, machine speeds and time limits incl. both sides of each boundary, force on and off",
 "Tests try two time limits on one file; memory limits, the combined error and boundary values depend on the host and are not reachable.",
 [ENC,"lib/scryptenc/scryptenc_cpuperf.c"],[("checkparams",ENC)],["return code"])
p("C11","Encryption picks the strongest parameters within the limits",
 "When no explicit parameters are given, encryption uses r = 8 and a power of two N with 128*N*r within the allowed memory and 4*N*r*p within the larger of 32768 cores and speed times time limit. N is the largest power of two satisfying both and p the largest value the CPU limit then allows (bounded by r*p < 2^30), so the result is always valid, and decryptable under the same limits whenever these allow at least 32768 cores.",
 ["inputs","configurations"],"all memory limits, fractions, machine speeds and time limits",
 "Tests cannot control machine speed or memory; they only observe that encryption succeeds.",
 [ENC],[("pickparams",ENC)],["logN, r, p in the header and in the returned parameters"])
p("C12","The allowed memory is the documented function of the system limits",
 "The memory allowance is the given fraction of the smallest available limit (physical memory reported by the system, address-space and resident-set resource limits, each ignored when unlimited), capped by the explicit maximum when that is non-zero, and never below 1 MiB. A failure to query any of them is reported as an error rather than producing a value.",
 ["configurations","inputs","fault_sequences"],"all combinations of reported RAM, mem_unit, page counts, resource limits, unlimited values, fractions and maxima, and failures of each query",
 "Depends on the host; tests see one machine.",
 ["lib-platform/util/memlimit.c"],[("memtouse and memlimit_*","lib-platform/util/memlimit.c")],["returned limit"])
p("C13","Explicit parameters are used verbatim or rejected",
 "When explicit N, r, p are given, encryption uses exactly those values, returns them to the caller, and at most warns (never fails) when they exceed the memory or time limits, with no such warning under force; invalid combinations are rejected with an explicit-parameter error and produce no output. On the command line --logN, -r and -p must be given all together and within 10..40, 1..32 and 1..2048; decryption ignores them and uses the header.",
 ["inputs","configurations"],"all values of logN, r, p (in and out of range), all subsets given, limits above and below the requirement, force on and off",
 "Tests use one triple and three single-option errors.",
 [ENC,"main.c"],[("scryptenc_setup explicit branch, checkparams",ENC),("range and all-or-none checks","main.c")],["header fields, stderr, exit status"])
p("C14","Input or output errors are never reported as success",
 "If reading the input or writing the output fails at any point - including errors that only surface when buffered data is flushed or the file is closed, on named files and on standard output - encryption and decryption report a read or write error and the utility exits non-zero, as it also does when --version cannot be written. A success report means the complete output was accepted by the operating system.",
 ["fault_sequences","crash_points"],"failure of the k-th read or write or of close, for every k, data size and destination kind",
 "Tests run on healthy files only; nothing injects ENOSPC, EIO or short writes.",
 [ENC,"main.c"],[("fread/ferror and fwrite checks",ENC),("fclose / fflush of the output","main.c")],["return code, exit status, output length"])
p("C15","Any failing system call or allocation yields a clean documented error",
 "If any memory allocation, clock, resource-limit, system-information or randomness call, or any read or write of a stream, fails during encryption, decryption, info or passphrase reading, the operation returns the corresponding documented error code (or succeeds through a documented fallback), and never crashes, hangs, leaks memory, mappings or file descriptors, or returns success with wrong data. A later retry without the fault succeeds.",
 ["fault_sequences"],"each single fallible call in turn, and combinations, in every public operation",
 "No fault is ever injected by the tests; error paths are never executed.",
 [ENC,KDF,"libcperciva/util/monoclock.c","libcperciva/util/entropy.c","lib-platform/util/memlimit.c","libcperciva/crypto/crypto_aes.c","libcperciva/crypto/crypto_aesctr.c"],[("goto-err cleanup ladders","all of the above"),("clock fallback on ENOSYS/EINVAL","libcperciva/util/monoclock.c")],["return code, live allocations, open descriptors"])
p("C16","Salts and random bytes follow HMAC_DRBG over OS entropy and never repeat",
 "Random bytes are the output of HMAC_DRBG (SP 800-90A, SHA-256) seeded with 48 bytes and reseeded with 32 bytes of operating-system entropy after every 256 requests, for any sequence of request sizes and any short reads of the entropy source; hardware randomness, where there is any, is only mixed in additionally, by one further update of the state after each seeding. If entropy cannot be obtained when needed the request fails and no salt is used, every encryption uses a fresh 32-byte salt, and requests never overrun their buffer.",
 ["histories","inputs","fault_sequences"],"all sequences of request lengths (0 to several times 65536), entropy byte streams, short reads, end of file and failures at instantiation and at reseeding",
 "The test only checks that two encryptions differ; the 257th request, large requests and entropy failures never occur.",
 ["libcperciva/crypto/crypto_entropy.c","libcperciva/util/entropy.c",ENC],[("instantiate / reseed / generate / update","libcperciva/crypto/crypto_entropy.c"),("entropy_read loop","libcperciva/util/entropy.c")],["returned bytes, bytes consumed from /dev/urandom"])
p("C17","The passphrase used is exactly the one the selected method supplies",
 "With env:VAR the passphrase is the variable's exact value; with file:NAME it is the file's single line without its line ending; with stdin or terminal entry it is the line typed, without its line ending, and when encrypting with the default method it must be entered twice, entry being repeated until both agree. Unset variables, unreadable files, files of 2048 or more characters or with more than one line, end of input and unknown methods are rejected with a non-zero exit, and passphrase input never disturbs data read from the same standard input.",
 ["inputs","histories"],"all passphrase byte strings (no NUL), lengths around 0, 2046..2048, line endings, methods, mismatch sequences, enc and dec",
 "Tests cover one variable, one file and no terminal, mismatch or long passphrases.",
 ["lib/util/passphrase_entry.c","libcperciva/util/readpass.c","libcperciva/util/readpass_file.c","main.c"],[("passphrase_entry_parse / passphrase_entry_readpass","lib/util/passphrase_entry.c"),("readpass, readpass_file","libcperciva/util/readpass*.c")],["key actually used, exit status, prompts"])
p("C18","Terminal echo is off during entry and always restored",
 "While a passphrase is read from a terminal its characters are not echoed, and on every way out - success, mismatch and retry, end of file, or a terminating signal arriving at any time during entry - the terminal settings are restored to what they were. A signal received during entry still has its effect (the default action terminates the process) after the settings are restored, without further input if it arrives while input is awaited, and signal dispositions are restored.",
 ["schedules","histories","fault_sequences"],"all entry histories on a pty, each handled signal at each point (first prompt, partial input, confirmation), initial terminal settings",
 "Tests never use a terminal.",
 ["libcperciva/util/readpass.c"],[("tcsetattr / sigaction / resetsigs","libcperciva/util/readpass.c")],["pty output, termios after exit, wait status"])
p("C19","Passphrases and keys are wiped before their memory is released",
 "After any encryption, decryption or passphrase read returns, whether it succeeded or failed, the passphrase copies the library made, the derived encryption and authentication keys, and expanded AES keys do not remain in released heap memory, in static variables, or in the dead stack frames of the call. The same holds for each of the cryptographic functions used on its own (crypto_scrypt, PBKDF2, HMAC, SHA-256, AES, AES-CTR), including partial copies in their temporaries and finished contexts. Memory still owned by the caller (for example a prepared-decryption handle) is wiped when it is freed.",
 ["inputs","fault_sequences"],"all interfaces, outcomes (success, wrong passphrase, tampered body, write error, allocation failure at any point)",
 "Functional tests cannot observe dead memory.",
 [ENC,"libcperciva/util/insecure_memzero.c","libcperciva/crypto/crypto_aes.c","libcperciva/crypto/crypto_aes_aesni.c","libcperciva/crypto/crypto_aesctr.c","libcperciva/alg/sha256.c","libcperciva/util/readpass.c","libcperciva/util/readpass_file.c","main.c"],[("insecure_memzero of dk, cookies, key schedules, password buffers","all of the above")],["bytes of freed blocks and of the stack region after return"])
p("C20","Command-line options mean what the manual says in every spelling and order",
 "Options may be given in any order, bundled (-fv), attached (-t5), separated (-t 5) or as --opt=value, up to -- or the first non-option; unknown options, missing or superfluous arguments, bad or out-of-range numbers (including negative, NaN, overflowing, or trailing garbage), repeated passphrase options, a wrong number of file names, and stdin used for both passphrase and input are rejected with a message and exit status 1, never a crash or silent reinterpretation. Accepted option values are exactly the numbers written, with the last occurrence winning.",
 ["inputs"],"all argument vectors over the documented options and near misses, all numeric spellings",
 "Tests use a few fixed command lines.",
 ["main.c","libcperciva/util/getopt.c","libcperciva/util/parsenum.h","libcperciva/util/humansize.c"],[("getopt","libcperciva/util/getopt.c"),("PARSENUM","libcperciva/util/parsenum.h"),("checks after the option loop","main.c")],["exit status, stderr, effect of the run"])
p("C21","Sizes are formatted and parsed exactly over the whole 64-bit range",
 "Formatting a size yields \"N B\" below 1000 and otherwise the largest value of the form X.Y or XX or XXX with an SI prefix (k to E) that does not exceed the size. Parsing accepts exactly digits followed by an optional space, an optional prefix k, M, G, T, P or E and an optional B, gives the exact product, and rejects every other string and any value of 2^64 or more.",
 ["inputs"],"all 64-bit sizes, all strings",
 "No test calls these functions directly; carries and overflow boundaries are not sampled.",
 ["libcperciva/util/humansize.c"],[("humansize, humansize_parse","libcperciva/util/humansize.c")],["strings, values, return codes"])
p("C22","info and -v report the parameters and resource needs accurately",
 "info prints the N, r and p stored in any valid header (needing no passphrase and only the first 96 bytes) and the memory 128*N*r needed, and rejects non-scrypt, truncated or invalid-parameter headers with a non-zero exit. With -v, encryption and decryption print the N, r, p actually used, that memory requirement, the memory available, and the estimated time consistent with 4*N*r*p and the measured speed, without overflow for any valid parameters.",
 ["inputs","configurations"],"all valid and invalid (logN, r, p), files and stdin, machine speeds and limits",
 "Tests match N, r and p for one file.",
 [ENC,"main.c"],[("display_params, scryptdec_file_printparams",ENC),("scrypt_mode_info","main.c")],["stderr, exit status"])
p("C23","The CPU speed estimate equals work done over elapsed time on any clock",
 "The speed estimate used for the time limits equals the number of salsa20/8 cores computed divided by the elapsed monotonic time, up to clock granularity, for any clock resolution, starting time (including second rollovers) and machine speed; it measures over more than one clock tick, terminates, and falls back to the real-time clock only when the monotonic clock is unsupported. Clock failures are reported as errors.",
 ["configurations","schedules","fault_sequences"],"all clock resolutions, start offsets, tick patterns, machine speeds, clock errors",
 "Timing on the test host is a single sample and no test checks the estimate.",
 ["lib/scryptenc/scryptenc_cpuperf.c","libcperciva/util/monoclock.c","libcperciva/util/monoclock.h"],[("scryptenc_cpuperf measurement loops","lib/scryptenc/scryptenc_cpuperf.c"),("monoclock_get, monoclock_getres, timeval_diff","libcperciva/util/monoclock.*")],["returned operations per second"])
p("C24","Every failure produces the matching diagnostic and exit status",
 "Each documented error code is reported on standard error with its own message (naming the input or output file, or standard input/output, for I/O errors, and the system error where one applies), prefixed with the program name, and the utility then exits 1; successful runs exit 0 and print no error. Warning and error printing never changes errno and handles any program name and message length; when it is directed to the system log, the same text goes there (at most WARNP_SYSLOG_MAX_LINE bytes of it, with the chosen priority) and nothing to standard error.",
 ["inputs","fault_sequences"],"all error codes, file names (including odd characters and format directives), causes reachable from the command line, errno values",
 "Tests match three messages for fixed inputs.",
 ["lib/scryptenc/scryptenc_print_error.c","libcperciva/util/warnp.c","main.c"],[("scryptenc_print_error","lib/scryptenc/scryptenc_print_error.c"),("warn / warnx","libcperciva/util/warnp.c")],["stderr, exit status"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
