"""Independent implementation of the scrypt file format (hashlib, hmac, and
OpenSSL's AES through ctypes)."""
import ctypes, ctypes.util, functools, hashlib, hmac, struct

_lib = None


def _crypto():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(ctypes.util.find_library("crypto") or "libcrypto.so.3")
        _lib.EVP_CIPHER_CTX_new.restype = ctypes.c_void_p
        _lib.EVP_aes_256_ctr.restype = ctypes.c_void_p
        _lib.EVP_EncryptInit_ex.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p]
        _lib.EVP_EncryptUpdate.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.POINTER(ctypes.c_int), ctypes.c_char_p, ctypes.c_int]
        _lib.EVP_CIPHER_CTX_free.argtypes = [ctypes.c_void_p]
    return _lib


def aes256ctr(key, data):
    if not data:
        return b""
    l = _crypto()
    ctx = l.EVP_CIPHER_CTX_new()
    try:
        assert l.EVP_EncryptInit_ex(ctx, l.EVP_aes_256_ctr(), None, key, b"\0" * 16) == 1
        out = ctypes.create_string_buffer(len(data) + 16)
        n = ctypes.c_int(0)
        assert l.EVP_EncryptUpdate(ctx, out, ctypes.byref(n), data, len(data)) == 1
        assert n.value == len(data)
        return out.raw[:len(data)]
    finally:
        l.EVP_CIPHER_CTX_free(ctx)


@functools.lru_cache(maxsize=512)
def derive(pw, salt, logN, r, p):
    return hashlib.scrypt(pw, salt=salt, n=1 << logN, r=r, p=p, maxmem=2 ** 31 - 1, dklen=64)


def header(pw, salt, logN, r, p, magic=b"scrypt", ver=0, fixsum=None, fixmac=None):
    h = magic + bytes([ver, logN]) + struct.pack(">II", r, p) + salt
    h += (hashlib.sha256(h).digest()[:16] if fixsum is None else fixsum)
    if fixmac is None:
        dk = derive(pw, salt, logN, r, p)
        fixmac = hmac.new(dk[32:], h, hashlib.sha256).digest()
    return h + fixmac


def build(pw, data, salt, logN, r, p):
    dk = derive(pw, salt, logN, r, p)
    f = header(pw, salt, logN, r, p) + aes256ctr(dk[:32], data)
    return f + hmac.new(dk[32:], f, hashlib.sha256).digest()


OK, INVAL, VERSION, EPASS = "ok", "inval", "version", "pass"


def fields(f):
    return f[7], struct.unpack(">I", f[8:12])[0], struct.unpack(">I", f[12:16])[0], f[16:48]


def valid_params(logN, r, p):
    return 1 <= logN <= 63 and r >= 1 and p >= 1 and r * p < 2 ** 30


def classify(pw, f):
    """What decryption of f must do: (verdict, plaintext or None)."""
    if len(f) >= 7 and f[:6] == b"scrypt" and f[6] != 0:
        # at least a version byte: unrecognised (the reader may also call a
        # file too short to hold a header invalid)
        return (VERSION if len(f) >= 96 else "inval|version"), None
    if len(f) < 96 or f[:6] != b"scrypt":
        return INVAL, None
    if hashlib.sha256(f[:48]).digest()[:16] != f[48:64]:
        return INVAL, None
    logN, r, p, salt = fields(f)
    if not valid_params(logN, r, p):
        return INVAL, None
    dk = derive(pw, salt, logN, r, p)
    if hmac.new(dk[32:], f[:64], hashlib.sha256).digest() != f[64:96]:
        return EPASS, None
    if len(f) < 128:
        return INVAL, None
    if hmac.new(dk[32:], f[:-32], hashlib.sha256).digest() != f[-32:]:
        return INVAL, None
    return OK, aes256ctr(dk[:32], f[96:-32])
