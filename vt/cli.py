"""Targets that run the real scrypt program (C05, C06, C07, C09, C14-C17, C19,
C20, C22, C24), with an independent codec as oracle."""
import hashlib, json, os, random, resource, shutil, signal, stat, struct, subprocess, threading, time
from hypothesis import strategies as st
import codec, hyp
from hyp import Bad

BASEENV = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C",
           "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=77:abort_on_error=0",
           "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1"}


class Res:
    def __init__(self, status, out, err):
        self.status, self.out, self.err = status, out, err

    def __str__(self):
        return "status %s, stderr %r, %d bytes on stdout" % (self.status, self.err[-400:], len(self.out))


def run(exe, argv, cwd, env=None, stdin=None, chunks=None, fsize=None, stdout="pipe", timeout=120, mem=None, stdin_path=None, closein=False, noread=False):
    """Runs the program without a controlling terminal."""
    e = dict(BASEENV)
    e.update(env or {})

    def pre():
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
        if mem is not None:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if stdout == "epipe":
            signal.signal(signal.SIGPIPE, signal.SIG_IGN)
        if stdout == "closed":
            os.close(1)
        if closein:
            os.close(0)
    need_pre = fsize is not None or mem is not None or stdout in ("epipe", "closed") or closein
    fds = []
    so = subprocess.PIPE
    if stdout == "full":
        so = os.open("/dev/full", os.O_WRONLY)
        fds.append(so)
    elif stdout == "epipe":
        r, so = os.pipe()
        os.close(r)
        fds.append(so)
    elif stdout == "closed":
        so = subprocess.DEVNULL
    elif stdout.startswith("file:"):
        so = os.open(stdout[5:], os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
        fds.append(so)
    si = subprocess.PIPE if stdin is not None else subprocess.DEVNULL
    if stdin_path:
        si = os.open(stdin_path, os.O_RDONLY)
        fds.append(si)
    p = subprocess.Popen([exe] + argv, cwd=cwd, env=e, stdin=si, stdout=so, stderr=subprocess.PIPE,
                         preexec_fn=pre if need_pre else None, start_new_session=True)
    for f in fds:
        os.close(f)
    try:
        if stdin is not None and chunks:
            def feed():
                try:
                    pos = 0
                    i = 0
                    while pos < len(stdin):
                        n = chunks[i % len(chunks)] or 1
                        i += 1
                        if i > 60:
                            n = len(stdin)
                        os.write(p.stdin.fileno(), stdin[pos:pos + n])
                        pos += n
                        time.sleep(0.0005)
                except OSError:
                    pass
                try:
                    p.stdin.close()
                except OSError:
                    pass
            outs = {}

            def rd(k, f):
                outs[k] = f.read() if f else b""
            ts = [threading.Thread(target=feed), threading.Thread(target=rd, args=("o", p.stdout)), threading.Thread(target=rd, args=("e", p.stderr))]
            for t in ts:
                t.start()
            p.wait(timeout)
            for t in ts:
                t.join(timeout)
            out, err = outs.get("o", b""), outs.get("e", b"")
        else:
            out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        raise Bad("the program did not finish within %d s: %s" % (timeout, argv))
    r = Res(p.returncode, out or b"", (err or b"").decode("latin1"))
    if r.status not in (0, 1):
        raise Bad("the program crashed: %s: %s" % (r, argv))
    return r


def data_bytes(n, seed):
    if seed == 0:
        return b"\0" * n
    if seed == 1:
        return b"\xff" * n
    return random.Random(seed).randbytes(n)


def read(path):
    with open(path, "rb") as f:
        return f.read()


def write(path, b):
    with open(path, "wb") as f:
        f.write(b)


def decides(env, ids):
    return env.prop in ids.split() or env.prop == "X00"


EDGES = [0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 4064, 4095, 4096, 4097, 32767, 32768,
         65503, 65504, 65505, 65535, 65536, 65537, 65567, 65568, 65569, 131039, 131040, 131071, 131072, 131073, 131104, 196608, 262144]
lengths = st.one_of(st.integers(0, 300), st.sampled_from(EDGES), st.integers(0, 300000),
                    st.builds(lambda a, b: max(0, a * 65536 + b), st.integers(0, 4), st.integers(-100, 100)))
pw_byte = st.integers(1, 255).filter(lambda x: x not in (10, 13))
passwords = st.one_of(st.binary(min_size=0, max_size=12).map(lambda b: bytes(x for x in b if x not in (0, 10, 13))),
                      st.lists(pw_byte, min_size=0, max_size=100).map(bytes),
                      st.integers(0, 2040).map(lambda n: bytes(97 + (i * 7) % 26 for i in range(n)))).map(lambda b: b.hex())
METHODS = ["env", "file", "filenl", "filecrlf", "once", "P", "default"]


def spell(opts, styles):
    """opts: [(name, value or None)]; styles: integers choosing a spelling."""
    out, bundle = [], ""
    k = 0
    for name, val in opts:
        s = styles[k % len(styles)] if styles else 0
        k += 1
        if len(name) > 1:
            if bundle:
                out.append("-" + bundle)
                bundle = ""
            if s % 2:
                out.append("--%s=%s" % (name, val))
            else:
                out += ["--" + name, val]
        elif val is None:
            bundle += name
            if s % 3 == 0:
                out.append("-" + bundle)
                bundle = ""
        else:
            if s % 3 == 0 and bundle:
                out.append("-" + bundle)
                bundle = ""
            bundle += name
            if s % 2:
                out.append("-" + bundle + val)
            else:
                out += ["-" + bundle, val]
            bundle = ""
    if bundle:
        out.append("-" + bundle)
    return out


def passphrase_args(method, pw, d, env, confirm, tag):
    """-> (options, stdin prefix or None)"""
    if method == "env":
        env["VT_PASS"] = os.fsdecode(pw)
        return [("passphrase", "env:VT_PASS")], b""
    if method in ("file", "filenl", "filecrlf"):
        p = os.path.join(d, "pw-" + tag)
        write(p, pw + {"file": b"", "filenl": b"\n", "filecrlf": b"\r\n"}[method])
        return [("passphrase", "file:" + p)], b""
    if method == "once":
        return [("passphrase", "dev:stdin-once")], pw + b"\n"
    if method == "P":
        return [("P", None)], pw + b"\n"
    if method == "defaultopt":
        return [("passphrase", "dev:tty-stdin")], (pw + b"\n") * (2 if confirm else 1)
    return [], (pw + b"\n") * (2 if confirm else 1)


def invoke(case, mode, side, d, pw, infile, data, extra, env_):
    """Runs enc or dec as described by side = dict(inp, outp, method, chunks, styles, order)."""
    e = {}
    method = side["method"]
    inp, outp = side["inp"], side["outp"]
    if inp != "file" and method in ("once", "P"):
        method = "env"
    opts, pre = passphrase_args(method, pw, d, e, mode == "enc", mode)
    if inp == "redirect" and pre:
        inp = "pipe"
    opts = opts + extra
    random.Random(side["order"]).shuffle(opts)
    argv = [mode] + spell(opts, side["styles"])
    if side["order"] % 5 == 0:
        argv.append("--")
    argv.append(infile if inp == "file" else "-")
    out = os.path.join(d, mode + ".out")
    if outp == "existing":
        write(out, b"old contents" * 40000)
    if outp in ("file", "existing"):
        argv.append(out)
    stdin = None
    kw = {}
    if inp == "pipe":
        stdin = pre + data
    elif inp == "redirect":
        kw["stdin_path"] = infile
    elif pre:
        stdin = pre
    if stdin is not None and side["chunks"]:
        kw["chunks"] = side["chunks"]
    r = run(env_.bins["cli"], argv, d, e, stdin=stdin, stdout="file:" + out if outp == "redirect" else "pipe", **kw)
    got = r.out if outp == "pipe" else (read(out) if os.path.exists(out) else None)
    if outp != "pipe" and r.out:
        raise Bad("output on stdout although a file was named")
    return r, got, argv


side = st.fixed_dictionaries({
    "inp": st.sampled_from(["file", "pipe", "redirect"]),
    "outp": st.sampled_from(["pipe", "file", "existing", "redirect"]),
    "method": st.sampled_from(METHODS + ["defaultopt"]),
    "chunks": st.one_of(st.just([]), st.lists(st.integers(1, 70000), min_size=1, max_size=3)),
    "styles": st.lists(st.integers(0, 5), min_size=1, max_size=4),
    "order": st.integers(0, 1000),
})
roundtrip_cases = st.fixed_dictionaries({
    "len": lengths, "seed": st.integers(0, 5), "pw": passwords,
    "params": st.one_of(st.just(None), st.tuples(st.integers(10, 12), st.integers(1, 9), st.integers(1, 3)).map(list)),
    "force": st.booleans(), "verbose": st.booleans(),
    "how": st.sampled_from(["roundtrip", "foreign", "rebuild"]),
    "fparams": st.tuples(st.integers(1, 13), st.integers(1, 12), st.integers(1, 5)).map(list), "salt": st.integers(0, 5),
    "enc": side, "dec": side,
})


def check_roundtrip(case, env):
    d = env.fresh()
    pw = bytes.fromhex(case["pw"])
    data = data_bytes(case["len"], case["seed"])
    flags = ([("f", None)] if case["force"] else []) + ([("v", None)] if case["verbose"] else [])
    plain = os.path.join(d, "plain")
    encf = os.path.join(d, "enc")
    if case["how"] == "foreign":
        f = codec.build(pw, data, data_bytes(32, case["salt"]), *case["fparams"])
    else:
        write(plain, data)
        extra = list(flags)
        if case["params"]:
            extra += [("logN", str(case["params"][0])), ("r", str(case["params"][1])), ("p", str(case["params"][2]))]
        else:
            extra = [o for o in extra] + [("t", "0.005"), ("M", "2M")]
        r, f, argv = invoke(case, "enc", case["enc"], d, pw, plain, data, extra, env)
        if r.status:
            raise Bad("enc failed: %s: %s" % (r, argv))
        if f is None:
            raise Bad("enc created no output: %s" % argv)
        if decides(env, "C05"):
            if len(f) != len(data) + 128:
                raise Bad("enc output has %d bytes for %d bytes of data" % (len(f), len(data)))
            logN, rr, p, salt = codec.fields(f)
            if f[:7] != b"scrypt\0" or not codec.valid_params(logN, rr, p):
                raise Bad("header %s" % f[:48].hex())
            if case["params"] and [logN, rr, p] != case["params"]:
                raise Bad("header has parameters %s instead of %s" % ([logN, rr, p], case["params"]))
            if (1 << logN) * rr * p <= 1 << 18:
                if codec.build(pw, data, salt, logN, rr, p) != f:
                    raise Bad("enc output differs from the format: verdict of an independent implementation: %s" % codec.classify(pw, f)[0])
    write(encf, f)
    r, g, argv = invoke(case, "dec", case["dec"], d, pw, encf, f, list(flags), env)
    if r.status:
        raise Bad("dec failed: %s: %s" % (r, argv))
    if g != data:
        raise Bad("dec produced %s instead of %d bytes of data: %s" % ("nothing" if g is None else "%d other bytes" % len(g), len(data), argv))
    if not case["verbose"]:
        err = r.err.replace("\n", "")
        if err and decides(env, "C24"):
            raise Bad("dec printed %r" % r.err[:300])
    if data:
        env.nontrivial()
    env.tag(case["how"])


# ---------------------------------------------------------------- tampering
small_params = st.tuples(st.integers(1, 6), st.integers(1, 8), st.integers(1, 3)).map(list)
edit = st.one_of(
    st.tuples(st.just("xor"), st.one_of(st.integers(0, 160), st.integers(0, 70000), st.integers(-140, -1)), st.integers(1, 255)),
    st.tuples(st.just("cut"), st.one_of(st.integers(0, 160), st.integers(-140, -1)), st.just(0)),
    st.tuples(st.just("append"), st.integers(1, 70), st.integers(0, 5)),
    st.tuples(st.just("del"), st.integers(-160, 160), st.integers(1, 40)),
    st.tuples(st.just("ins"), st.integers(-160, 160), st.integers(1, 40)),
    st.tuples(st.just("swap"), st.integers(0, 300), st.integers(0, 300)),
    st.tuples(st.just("splice"), st.integers(-140, 200), st.integers(0, 3)),
    st.tuples(st.just("hdr"), st.integers(6, 47), st.integers(0, 255)),     # with a new checksum
    st.tuples(st.just("hdrmac"), st.integers(16, 47), st.integers(0, 255)),  # and a new MAC
).map(list)
tamper_cases = st.fixed_dictionaries({
    "len": st.one_of(st.integers(0, 200), st.sampled_from([65535, 65536, 65537, 65504, 65568, 131072]), st.integers(0, 140000)),
    "seed": st.integers(0, 5), "pw": passwords, "params": small_params, "salt": st.integers(0, 5),
    "edits": st.lists(edit, max_size=3), "pwedit": st.one_of(st.just(None), st.just(None), passwords, st.sampled_from(["trunc", "append", "case", "space"])),
    "side": side, "force": st.booleans(),
})


def apply_edits(f, other, pw, edits):
    f = bytearray(f)
    for k, a, b in edits:
        n = len(f)
        if k == "xor" and n:
            f[a % n] ^= b
        elif k == "cut":
            f = f[:a] if a >= 0 else f[:max(0, n + a)]
        elif k == "append":
            f += data_bytes(a, b)
        elif k == "del" and n:
            i = a % n
            del f[i:i + b]
        elif k == "ins" and n:
            i = a % n
            f[i:i] = data_bytes(b, b)
        elif k == "swap" and n:
            i, j = a % n, b % n
            f[i], f[j] = f[j], f[i]
        elif k == "splice":
            i = a % (n + 1)
            f = f[:i] + other[i:]
        elif k in ("hdr", "hdrmac") and n >= 96:
            f[a] = b
            f[48:64] = hashlib.sha256(bytes(f[:48])).digest()[:16]
            if k == "hdrmac":
                logN, r, p, salt = codec.fields(bytes(f))
                if f[:7] == b"scrypt\0" and codec.valid_params(logN, r, p) and (r * p << logN) <= 1 << 17:
                    import hmac
                    f[64:96] = hmac.new(codec.derive(pw, bytes(salt), logN, r, p)[32:], bytes(f[:64]), hashlib.sha256).digest()
    return bytes(f)


MSG = {codec.INVAL: "Input is not valid scrypt-encrypted block", codec.VERSION: "Unrecognized scrypt format version",
       codec.EPASS: "Passphrase is incorrect"}


def check_tamper(case, env):
    d = env.fresh()
    pw = bytes.fromhex(case["pw"])
    data = data_bytes(case["len"], case["seed"])
    f = codec.build(pw, data, data_bytes(32, case["salt"]), *case["params"])
    other = codec.build(pw, data_bytes(case["len"] + 9, 4), data_bytes(32, case["salt"] + 7), *case["params"])
    g = apply_edits(f, other, pw, case["edits"])
    q = pw
    e = case["pwedit"]
    if e in ("trunc", "append", "case", "space"):
        q = {"trunc": pw[:-1], "append": pw + b"x", "case": pw.swapcase(), "space": pw + b" "}[e]
    elif e is not None:
        q = bytes.fromhex(e)
    if len(q) > 2000:
        q = q[:2000]
    if len(g) >= 96 and g[:7] == b"scrypt\0":
        logN, r, p, _ = codec.fields(g)
        if hashlib.sha256(g[:48]).digest()[:16] == g[48:64] and codec.valid_params(logN, r, p) and (r * p << min(logN, 63)) > 1 << 17:
            return      # too expensive to decide here
    verdict, want = codec.classify(q, g)
    encf = os.path.join(d, "enc")
    write(encf, g)
    flags = [("f", None)] if case["force"] else []
    r, got, argv = invoke(case, "dec", case["side"], d, q, encf, g, flags, env)
    if (r.status == 0) != (verdict == codec.OK):
        raise Bad("dec of a file that is %s: %s" % (verdict, r))
    if verdict == codec.OK:
        if got != want:
            raise Bad("wrong plaintext")
    else:
        vs = verdict.split("|")
        if not any(MSG[v] in r.err for v in vs):
            raise Bad("expected the message %r: %s" % (MSG[vs[0]], r))
        env.nontrivial()
    env.tag(verdict)


# ---------------------------------------------------------------- early failures leave the output alone
CAUSES = ["missing", "directory", "empty", "short", "magic", "version", "checksum", "logN0", "logN64", "r0", "p0", "rp", "toobig", "tooslow", "bigslow",
          "wrongpass", "hmac", "noenv", "nopwfile", "pwlines", "pwlong", "emptystdin", "notty", "badopt", "noarg", "badnum", "extra", "pconf", "onlyr",
          "nomethod", "twometh", "encbadopt", "infobadopt", "pwdir", "rpbig", "trunc95", "inputfifo"]
untouched_cases = st.fixed_dictionaries({
    "cause": st.sampled_from(CAUSES), "out": st.sampled_from(["absent", "existing", "stdout", "stdoutfile", "symlink", "empty", "readonly"]),
    "len": st.one_of(st.integers(0, 200), st.integers(0, 70000)), "k": st.integers(0, 10 ** 6), "v": st.booleans(), "f": st.booleans(),
    "pw": passwords, "params": small_params, "inp": st.sampled_from(["file", "pipe", "redirect"]),
})


def rehdr(f, logN=None, r=None, p=None):
    f = bytearray(f)
    if logN is not None:
        f[7] = logN
    if r is not None:
        f[8:12] = struct.pack(">I", r)
    if p is not None:
        f[12:16] = struct.pack(">I", p)
    f[48:64] = hashlib.sha256(bytes(f[:48])).digest()[:16]
    return bytes(f)


def check_untouched(case, env):
    d = env.fresh()
    k = case["k"]
    pw = bytes.fromhex(case["pw"])[:1500]
    if not pw:
        pw = b"x"
    f = codec.build(pw, data_bytes(case["len"], k % 6), data_bytes(32, k % 5), *case["params"])
    cause, inp = case["cause"], case["inp"]
    e = {"PW": os.fsdecode(pw)}
    mode, opts, files, stdin = "dec", [], None, None
    meth = ["--passphrase", "env:PW"]
    force = case["f"]
    msg = None
    if cause == "missing":
        inp = "none"
        msg = "Cannot open input file"
    elif cause == "directory":
        inp = "dir"
        msg = "Error reading file"
    elif cause == "empty":
        f = b""
    elif cause == "short":
        f = f[:k % 96]
    elif cause == "trunc95":
        f = f[:95]
    elif cause == "magic":
        i = k % 6
        f = f[:i] + bytes([f[i] ^ (1 + k % 255)]) + f[i + 1:]
    elif cause == "version":
        f = bytearray(f)
        f[6] = 1 + k % 255
        if k & 256:
            f[48:64] = hashlib.sha256(bytes(f[:48])).digest()[:16]
        f = bytes(f)
        msg = MSG[codec.VERSION]
    elif cause == "checksum":
        i = 7 + k % 57
        f = f[:i] + bytes([f[i] ^ (1 + k % 255)]) + f[i + 1:]
    elif cause == "logN0":
        f = rehdr(f, logN=0)
    elif cause == "logN64":
        f = rehdr(f, logN=64 + k % 192)
    elif cause == "r0":
        f = rehdr(f, r=0)
    elif cause == "p0":
        f = rehdr(f, p=0)
    elif cause == "rp":
        f = rehdr(f, r=1 << 15, p=1 << (15 + k % 17))
    elif cause == "rpbig":
        f = rehdr(f, r=0x7fffffff, p=0xfffffff0)
    elif cause in ("toobig", "bigslow", "tooslow"):
        force = False
        if cause == "toobig":
            f = rehdr(f, logN=14 + k % 8, r=8, p=1)
            opts = ["-M", "1M", "-t", "100000"]
            msg = "Decrypting file would require too much memory"
        elif cause == "tooslow":
            f = rehdr(f, logN=10, r=8, p=1 << (20 + k % 6))
            opts = ["-M", "16M", "-t", "0.01"]
            msg = "Decrypting file would take too much CPU time"
        else:
            f = rehdr(f, logN=30 + k % 20, r=8, p=1 << 15)
            opts = ["-M", "16M", "-t", "0.01"]
            msg = "Decrypting file would require too much memory and CPU time"
    elif cause == "wrongpass":
        e["PW"] = os.fsdecode(pw + b"x" if k & 1 else pw[:-1] + bytes([1 + pw[-1] % 9])) if len(pw) < 60 else "no"
        msg = MSG[codec.EPASS]
    elif cause == "hmac":
        i = 64 + k % 32
        f = f[:i] + bytes([f[i] ^ (1 + k % 255)]) + f[i + 1:]
        msg = MSG[codec.EPASS]
    elif cause == "noenv":
        meth = ["--passphrase", "env:UNSET"]
    elif cause == "nopwfile":
        meth = ["--passphrase", "file:%s/none" % d]
    elif cause == "pwdir":
        meth = ["--passphrase", "file:%s" % d]
    elif cause == "pwlines":
        write(d + "/pwf", pw + b"\n" + (b"more" if k & 1 else b"\n"))
        meth = ["--passphrase", "file:%s/pwf" % d]
    elif cause == "pwlong":
        write(d + "/pwf", b"a" * (2048 + k % 100))
        meth = ["--passphrase", "file:%s/pwf" % d]
    elif cause == "emptystdin":
        meth = [[], ["-P"], ["--passphrase", "dev:stdin-once"], ["--passphrase", "dev:tty-stdin"]][k % 4]
        inp = "file"
        stdin = b""
    elif cause == "notty":
        meth = ["--passphrase", "dev:tty-once"]
    elif cause in ("badopt", "encbadopt", "infobadopt"):
        opts = [["-x"], ["--foo"], ["-t"], ["--logN"], ["-M", "x"], ["-m", "0.6"], ["-t", "-1"], ["-m", "0"], ["-p", "0"], ["--logN", "9"], ["-r", "33"], ["-fx"], ["--passphrase=bad"], ["-m", "nan"]][k % 14]
        mode = {"badopt": "dec", "encbadopt": "enc", "infobadopt": "info"}[cause]
    elif cause == "noarg":
        inp = "nofiles"
    elif cause == "badnum":
        opts = [["-t", "5x"], ["-t", ""], ["-M", "5 X"], ["-M", "18446744073709551616"], ["-r", "-1"], ["-p", "1e3"], ["--logN=0x"], ["-m", "1"]][k % 8]
        mode = ["enc", "dec"][k // 8 % 2]
    elif cause == "extra":
        inp = "extra"
        mode = ["enc", "dec"][k % 2]
    elif cause == "pconf":
        meth = ["-P"]
        inp = "pipe"
        mode = ["enc", "dec"][k % 2]
    elif cause == "onlyr":
        opts = [["-r", "8"], ["-p", "1"], ["--logN", "10"], ["-r8", "-p1"], ["-r8", "--logN=10"], ["-p1", "--logN=10"]][k % 6]
        mode = ["enc", "dec"][k // 6 % 2]
    elif cause == "nomethod":
        mode = ["encrypt", "", "--help", "Dec", "en"][k % 5]
    elif cause == "twometh":
        meth = [["-P", "--passphrase", "env:PW"], ["-P", "-P"], ["--passphrase=env:PW", "--passphrase=env:PW"]][k % 3]
        mode = ["enc", "dec"][k % 2]
    elif cause == "inputfifo":
        inp = "shortpipe"
        f = f[:k % 96]
    src = os.path.join(d, "in")
    write(src, f)
    out = os.path.join(d, "out")
    names = []
    if case["out"] != "stdout" and case["out"] != "stdoutfile":
        names = [out]
    if case["out"] in ("existing", "readonly"):
        write(out, b"precious" * 100)
        if case["out"] == "readonly":
            os.chmod(out, 0o400)
    elif case["out"] == "empty":
        write(out, b"")
    elif case["out"] == "symlink":
        write(out + ".real", b"precious" * 10)
        os.symlink(out + ".real", out)

    def snap():
        s = {}
        for n in os.listdir(d):
            t = os.lstat(os.path.join(d, n))
            s[n] = (t.st_ino, t.st_mode, t.st_size, t.st_mtime_ns, read(os.path.join(d, n)) if os.path.isfile(os.path.join(d, n)) else None)
        return s
    before = snap()
    argv = [mode] + opts + (["-v"] if case["v"] else []) + (["-f"] if force else []) + (meth if mode in ("enc", "dec") else [])
    kw = {}
    if inp == "file":
        argv += [src] + names
    elif inp in ("pipe", "shortpipe"):
        argv += ["-"] + names
        stdin = f
    elif inp == "redirect":
        argv += ["-"] + names
        kw["stdin_path"] = src
    elif inp == "none":
        argv += [src + ".none"] + names
    elif inp == "dir":
        argv += [d] + names
    elif inp == "extra":
        argv += [src, out, "third"]
    if case["out"] == "stdoutfile":
        sd = env.fresh()
        kw["stdout"] = "file:" + sd + "/so"
    r = run(env.bins["cli"], argv, d, e, stdin=stdin, **kw)
    if case["out"] == "stdoutfile":
        r.out = read(sd + "/so")
    if r.status != 1:
        raise Bad("%s: exit status %d: %s: %s" % (cause, r.status, r, argv))
    after = snap()
    if after != before:
        for n in sorted(set(after) | set(before)):
            if after.get(n) != before.get(n):
                raise Bad("%s: %s was %s: %s" % (cause, n, "created" if n not in before else "removed" if n not in after else "changed", argv))
    if r.out:
        raise Bad("%s: %d bytes on standard output: %s" % (cause, len(r.out), argv))
    if decides(env, "C24 C09"):
        if not r.err.strip():
            raise Bad("%s: no message" % cause)
        if msg and decides(env, "C24") and msg not in r.err:
            raise Bad("%s: message %r does not contain %r" % (cause, r.err[:300], msg))
    env.nontrivial()
    env.tag(cause)


# ---------------------------------------------------------------- I/O failures
full_cases = st.fixed_dictionaries({
    "mode": st.sampled_from(["enc", "dec", "enc", "dec", "enc", "dec", "version"]), "len": st.one_of(st.integers(0, 200), st.integers(0, 200000), st.sampled_from(EDGES)),
    "kind": st.sampled_from(["fsize", "fsize", "fsize", "full", "fullfile", "epipe", "closed", "indir", "inmem", "inclosed", "ok", "outdir", "nodir"]),
    "at": st.one_of(st.integers(0, 300), st.integers(0, 200000), st.integers(-200, 200)), "redirect": st.booleans(), "params": small_params, "pre": st.booleans(),
    "inp": st.sampled_from(["file", "pipe"]), "f": st.booleans(),
})


def check_full(case, env):
    d = env.fresh()
    pw = b"pass"
    data = data_bytes(case["len"], 3)
    f = codec.build(pw, data, data_bytes(32, 2), *case["params"])
    src = os.path.join(d, "in")
    mode = case["mode"]
    if mode == "version":
        kind = {"fsize": "fsize", "full": "full", "epipe": "epipe", "closed": "closed"}.get(case["kind"], "ok")
        kw = {"full": {"stdout": "full"}, "epipe": {"stdout": "epipe"}, "closed": {"stdout": "closed"}}.get(kind, {})
        if kind == "fsize":
            kw = {"fsize": abs(case["at"]) % 8, "stdout": "file:" + os.path.join(d, "out")}
        r = run(env.bins["cli"], ["--version"], d, {}, **kw)
        if kind == "ok":
            if r.status or not r.out.startswith(b"scrypt "):
                raise Bad("--version: %s" % r)
            if decides(env, "C24") and r.err:
                raise Bad("--version succeeded and printed %r" % r.err[:300])
        else:
            if r.status == 0:
                raise Bad("--version reported success although it cannot have written (%s): %s" % (kind, r))
            if decides(env, "C24") and not (r.err.strip() and r.status == 1):
                raise Bad("--version with a failing output (%s): no message, or not status 1: %s" % (kind, r))
            env.nontrivial()
        env.tag("version")
        return
    content, want = (data, len(data) + 128) if mode == "enc" else (f, len(data))
    write(src, content)
    out = os.path.join(d, "out")
    argv = [mode, "--passphrase", "env:PW"] + (["--logN=10", "-r1", "-p1"] if mode == "enc" else []) + (["-f"] if case["f"] else [])
    kind = case["kind"]
    kw = {"stdin": None}
    tofile = not case["redirect"]
    infile, stdin = (src, None) if case["inp"] == "file" else ("-", content)
    fails = True
    msg = None
    if kind == "fsize":
        at = case["at"]
        if at < 0 or at > want:
            at = max(0, want + (at % 401 - 200) if at > want else want + at)
        kw["fsize"] = at
        fails = at < want
        msg = "Error writing file"
        kw["stdout"] = "pipe" if tofile else "file:" + out
    elif kind == "full":
        tofile = False
        kw["stdout"] = "full"
        fails = want > 0
        msg = "Error writing file"
    elif kind == "fullfile":
        tofile = True
        os.symlink("/dev/full", out)
        fails = want > 0
        msg = "Error writing file"
    elif kind == "epipe":
        tofile = False
        kw["stdout"] = "epipe"
        fails = want > 0
        msg = "Error writing file"
    elif kind == "closed":
        kw["stdout"] = "closed"
        fails = want > 0 and not tofile
        msg = None
    elif kind == "indir":
        infile, stdin = d, None
        msg = "Error reading file"
        kw["stdout"] = "pipe"
    elif kind == "inmem":
        infile, stdin = "/proc/self/mem", None
        msg = "Error reading file"
    elif kind == "inclosed":
        infile, stdin = "-", None
        kw["closein"] = True
        msg = None
    elif kind == "outdir":
        tofile = True
        os.mkdir(out)
        msg = "Cannot open output file"
    elif kind == "nodir":
        tofile = True
        out = os.path.join(d, "none", "out")
        msg = "Cannot open output file"
    else:
        fails = False
        kw["stdout"] = "pipe" if tofile else "file:" + out
    if tofile and case["pre"] and kind in ("fsize", "ok"):
        write(out, b"z" * 5000)
    argv.append(infile)
    if tofile:
        argv.append(out)
    kw["stdin"] = stdin
    r = run(env.bins["cli"], argv, d, {"PW": "pass"}, **kw)
    desc = "%s %s (%d bytes of output)" % (mode, kind + (" at %d" % kw["fsize"] if kind == "fsize" else ""), want)
    if fails:
        if r.status == 0:
            raise Bad("%s: reported success although it cannot have worked: %s" % (desc, r))
        if decides(env, "C24") and msg and msg not in r.err:
            raise Bad("%s: message %r does not contain %r" % (desc, r.err[:300], msg))
        if not r.err.strip():
            raise Bad("%s: no message" % desc)
        env.nontrivial()
    else:
        if r.status:
            raise Bad("%s: %s" % (desc, r))
        if kind in ("fsize", "ok"):
            got = read(out)
            if mode == "dec" and got != data or mode == "enc" and codec.classify(pw, got)[1] != data:
                raise Bad("%s: success reported, but the output is wrong (%d bytes)" % (desc, len(got)))
    env.tag(kind)


# ---------------------------------------------------------------- passphrase sources
pass_cases = st.fixed_dictionaries({
    "pw": st.one_of(passwords, st.integers(2030, 2060).map(lambda n: (b"k" * n).hex()), st.binary(max_size=6).map(lambda b: bytes(x for x in b if x not in (0, 10)).hex()),
                    st.sampled_from([b" lead", b"trail ", b"\ttab", b"a\\nb", b"#x", b"\xef\xbb\xbfbom", b"-", b"env:X", b"%s"]).map(lambda b: b.hex())),
    "src": st.sampled_from(["env", "file", "stdin", "P", "default", "defaultopt"]),
    "end": st.sampled_from(["", "\n", "\r\n", "\r", "\n\n", "\nx", "\n\r\n", "\r\r\n"]), "mode": st.sampled_from(["enc", "dec"]),
    "second": st.sampled_from(["same", "differ-then-same", "differ", "missing"]), "tail": st.integers(0, 3000), "datastdin": st.booleans(),
})


def check_pass(case, env):
    d = env.fresh()
    raw = bytes.fromhex(case["pw"]).replace(b"\n", b"").replace(b"\0", b"")
    src, mode = case["src"], case["mode"]
    end = case["end"].encode()
    if src == "env":
        pw, ok = raw, True
    elif b"\r" in raw or end in (b"\r", b"\r\r\n"):
        return      # a lone CR: not claimed
    elif src == "file":
        if len(raw) >= 2000 and end not in (b"", b"\n", b"\r\n"):
            ok = False
        else:
            ok = len(raw + end) < 2048 and end in (b"", b"\n", b"\r\n")
        pw = raw
        if len(raw) < 2048 <= len(raw + end):
            return      # whether the line ending counts towards the limit: not claimed here
    else:
        if end not in (b"\n", b"\r\n"):
            end = b"\n"
        pw, ok = raw, True
        if len(raw) + len(end) > 2046:
            return
    e, opts, stdin = {}, [], b""
    confirm = mode == "enc" and src in ("default", "defaultopt")
    if src == "env":
        e["THEPW"] = os.fsdecode(raw)
        opts = ["--passphrase", "env:THEPW"]
    elif src == "file":
        write(d + "/pw", raw + end)
        opts = ["--passphrase", "file:" + d + "/pw"]
    else:
        opts = {"stdin": ["--passphrase", "dev:stdin-once"], "P": ["-P"], "default": [], "defaultopt": ["--passphrase=dev:tty-stdin"]}[src]
        line = raw + end
        stdin = line
        if confirm:
            s = case["second"]
            if s == "same":
                stdin = line + line
            elif s == "differ-then-same":
                stdin = b"other" + raw[:30] + end + line + line + line
            elif s == "differ":
                stdin = line + raw[:30] + b"z" + end
                ok = False
            else:
                stdin = line
                ok = False
    data = data_bytes(case["tail"], 4)
    shared = case["datastdin"] and src in ("default", "defaultopt", "env", "file")
    if not ok and shared and confirm:
        shared = False      # the data would be taken for entries
    if mode == "dec":
        content = codec.build(pw, data, data_bytes(32, 3), 2, 1, 1)
    else:
        content = data
    write(d + "/in", content)
    argv = [mode] + opts + (["--logN=10", "-r1", "-p1", "-f"] if mode == "enc" else []) + (["-"] if shared else [d + "/in"]) + [d + "/out"]
    r = run(env.bins["cli"], argv, d, e, stdin=stdin + (content if shared else b""))
    desc = "passphrase of %d bytes from %s, ending %r, %s" % (len(raw), src, case["end"], mode)
    if (r.status == 0) != ok:
        raise Bad("%s: %s, expected %s" % (desc, r, "success" if ok else "failure"))
    if ok:
        got = read(d + "/out")
        if mode == "enc":
            v, got = codec.classify(pw, got)
            if v != codec.OK:
                raise Bad("%s: not encrypted with that passphrase (%s)" % (desc, v))
        if got != data:
            raise Bad("%s: data disturbed (%d bytes instead of %d)" % (desc, len(got), len(data)))
        if raw:
            env.nontrivial()
    else:
        env.nontrivial()
        if mode == "dec" and os.path.exists(d + "/out"):
            raise Bad("%s: output created" % desc)
    env.tag(src)


# ---------------------------------------------------------------- info
info_cases = st.fixed_dictionaries({
    "logN": st.integers(0, 255), "r": st.one_of(st.integers(0, 64), st.integers(0, 2 ** 32 - 1), st.integers(0, 32).map(lambda k: min(2 ** k, 2 ** 32 - 1))),
    "p": st.one_of(st.integers(0, 64), st.integers(0, 2 ** 32 - 1), st.integers(0, 32).map(lambda k: min(2 ** k, 2 ** 32 - 1))),
    "inp": st.sampled_from(["file", "pipe", "redirect"]), "len": st.sampled_from([0, 7, 95, 96, 97, 128, 5000]), "out": st.booleans(), "seed": st.integers(0, 9),
    "opts": st.lists(st.sampled_from(["-v", "-f", "-t1", "-M1", "--passphrase=env:NONE", "-m0.1"]), max_size=2), "pipeopen": st.booleans(),
})


def human(n):
    if n < 1000:
        return "%d B" % n
    n10 = n // 100
    i = 0
    while n10 >= 10000:
        n10 //= 1000
        i += 1
    pre = "kMGTPE"[i]
    return ("%d.%d %sB" % (n10 // 10, n10 % 10, pre)) if n10 < 100 else "%d %sB" % (n10 // 10, pre)


def check_info(case, env):
    d = env.fresh()
    logN, r, p = case["logN"], case["r"], case["p"]
    if case["seed"] < 6:
        logN = 1 + logN % 63
    f = codec.header(b"pw", data_bytes(32, case["seed"]), logN, r, p, fixmac=b"\7" * 32) + data_bytes(5000, 3)
    f = f[:case["len"]]
    write(d + "/in", f)
    opts = [o for o in case["opts"]]
    if opts.count("--passphrase=env:NONE") > 1:
        return
    argv = ["info"] + opts + ([d + "/in"] if case["inp"] == "file" else ["-"]) + ([d + "/out"] if case["out"] else [])
    res = run(env.bins["cli"], argv, d, stdin=f if case["inp"] == "pipe" else None, stdin_path=d + "/in" if case["inp"] == "redirect" else None)
    valid = case["len"] >= 96 and codec.valid_params(logN, r, p)
    if res.out or os.path.exists(d + "/out"):
        raise Bad("info produced output: %s" % res)
    if (res.status == 0) != valid:
        raise Bad("info on logN=%d r=%d p=%d, %d bytes: %s" % (logN, r, p, case["len"], res))
    if valid:
        import re
        for what, v in (("N", 1 << logN), ("r", r), ("p", p)):
            m = re.search(r"\b%s = (\d+)" % what, res.err)
            if not m or int(m.group(1)) != v:
                raise Bad("info reports %s = %s instead of %d: %r" % (what, m and m.group(1), v, res.err))
        mem = 128 * r << logN
        if mem < 1 << 64 and human(mem) not in res.err:
            raise Bad("info does not report %s of memory for N=2^%d, r=%d: %r" % (human(mem), logN, r, res.err))
        env.nontrivial()
    elif not res.err.strip():
        raise Bad("no message")
    env.tag("valid" if valid else "invalid")


# ---------------------------------------------------------------- fresh salts
salt_cases = st.fixed_dictionaries({"n": st.integers(2, 24), "par": st.booleans(), "out": st.booleans()})


def check_salt(case, env):
    d = env.fresh()
    ps, outs = [], []
    e = dict(BASEENV, PW="x")
    for i in range(case["n"]):
        p = subprocess.Popen([env.bins["cli"], "enc", "--logN=10", "-r1", "-p1", "-f", "--passphrase=env:PW", "/dev/null"], cwd=d, env=e,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        if case["par"]:
            ps.append(p)
        else:
            outs.append(p.communicate(timeout=60)[0])
    outs += [p.communicate(timeout=60)[0] for p in ps]
    salts = [o[16:48] for o in outs]
    if any(len(o) != 128 for o in outs):
        raise Bad("enc failed")
    if len(set(salts)) != len(salts):
        raise Bad("salt repeated: %s" % sorted(s.hex() for s in salts))
    seen = {}
    for s in salts:
        for h in (s[:16], s[16:]):
            if h in seen:
                raise Bad("half of a salt repeated: %s" % h.hex())
            seen[h] = 1
        if len(set(s)) < 8:
            raise Bad("salt is not random: %s" % s.hex())
    env.nontrivial()


# ---------------------------------------------------------------- failing calls and what is left in memory, in the whole program
CALLS_ERR = [0, 0, 12, 5, 4, 24, 11]
shim_cases = st.fixed_dictionaries({
    "mode": st.sampled_from(["enc", "enc", "dec", "dec", "info"]), "auto": st.booleans(), "method": st.sampled_from(["env", "file", "once", "default"]),
    "len": st.sampled_from([0, 5, 100, 65535, 65536, 65700, 140000]), "outcome": st.sampled_from(["good", "good", "wrongpass", "tampertail", "tamperbody", "short", "badhdr", "full", "toobig"]),
    "fail": st.one_of(st.just(-1), st.integers(0, 60)), "errno": st.sampled_from(CALLS_ERR), "verbose": st.booleans(), "force": st.booleans(), "out": st.booleans(), "seed": st.integers(0, 20),
})


def _xtime(a):
    a <<= 1
    return (a ^ 0x11b) & 0xff if a & 0x100 else a


_sbox = None


def sbox():
    global _sbox
    if _sbox is None:
        inv = [0] * 256
        exp, log = [0] * 512, [0] * 256
        x = 1
        for i in range(255):
            exp[i] = x
            log[x] = i
            x ^= _xtime(x)
        for i in range(1, 256):
            inv[i] = exp[(255 - log[i]) % 255]
        _sbox = []
        for i in range(256):
            s = inv[i]
            r = s
            for _ in range(4):
                s = ((s << 1) | (s >> 7)) & 0xff
                r ^= s
            _sbox.append(r ^ 0x63)
    return _sbox


def aes256_schedule(key):
    S = sbox()
    w = [key[4 * i:4 * i + 4] for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = w[-1]
        if i % 8 == 0:
            t = bytes([S[t[1]] ^ rc, S[t[2]], S[t[3]], S[t[0]]])
            rc = _xtime(rc)
        elif i % 8 == 4:
            t = bytes(S[x] for x in t)
        w.append(bytes(a ^ b for a, b in zip(w[i - 8], t)))
    return b"".join(w)


def check_shim(case, env):
    d = env.fresh()
    mode, oc = case["mode"], case["outcome"]
    pw = b"a passphrase that is long enough %03d to look for" % case["seed"]
    data = data_bytes(case["len"], 3 + case["seed"])
    f = codec.build(pw, data, data_bytes(32, case["seed"]), 4 + case["seed"] % 3, 2, 1)
    usepw = pw
    if mode != "enc":
        if oc == "wrongpass":
            usepw = pw[:-1] + b"Z"
        elif oc == "tampertail":
            f = f[:-1] + bytes([f[-1] ^ 1])
        elif oc == "tamperbody" and data:
            f = f[:100] + bytes([f[100] ^ 1]) + f[101:]
        elif oc == "short":
            f = f[:100]
        elif oc == "badhdr":
            f = f[:40] + bytes([f[40] ^ 1]) + f[41:]
        elif oc == "toobig":
            f = rehdr(f, logN=40, r=8)
    content = data if mode == "enc" else f
    write(d + "/in", content)
    e = {"LD_PRELOAD": env.bins["lib:shim"], "SHIM_LOG": d + "/log", "SHIM_DUMP": d + "/dump"}
    if case["fail"] >= 0:
        e["SHIM_FAIL"] = str(case["fail"])
        if case["errno"]:
            e["SHIM_ERRNO"] = str(case["errno"])
    opts, stdin = passphrase_args(case["method"], usepw, d, e, mode == "enc", "s")
    if mode == "enc":
        opts += [("t", "0.002"), ("M", "2M")] if case["auto"] else [("logN", "10"), ("r", "2"), ("p", "1")]
    if case["verbose"]:
        opts.append(("v", None))
    if case["force"] and oc != "toobig":
        opts.append(("f", None))
    argv = [mode] + spell(opts, [0]) + [d + "/in"] + ([d + "/out"] if case["out"] else [])
    full = oc == "full" and mode != "info"
    if full and case["out"]:
        os.symlink("/dev/full", d + "/out")
    r = run(env.bins["cli"], argv, d, e, stdin=stdin or None, stdout="full" if full and not case["out"] else "pipe")
    if not os.path.exists(d + "/log") or not os.path.exists(d + "/dump"):
        # It did not exit in the ordinary way.
        if r.status < 0 and decides(env, "C15"):
            raise Bad("%s, %s, call %d fails: %s" % (" ".join(argv[:1] + spell(opts, [0])), oc, case["fail"], r))
        return
    calls = read(d + "/log").decode().split()
    injected = 0 <= case["fail"] < len(calls)
    what = calls[case["fail"]] if injected else "no call"
    desc = "%s, %s, %s fails (call %d)" % (" ".join(argv[:1] + spell(opts, [0])), oc, what, case["fail"])
    good = oc == "good" or (mode == "enc" and oc != "full") or (mode == "info" and oc in ("wrongpass", "tampertail", "tamperbody", "full", "toobig", "short", "badhdr")) or (oc == "tamperbody" and not data)
    got = read(d + "/out") if case["out"] and os.path.exists(d + "/out") and not full else r.out
    if full:
        good = case["len"] == 0 and mode == "dec"
    if not injected:
        if (r.status == 0) != good:
            raise Bad("%s: %s" % (desc, r))
    elif not good and r.status == 0:
        raise Bad("%s: success: %s" % (desc, r))
    if r.status == 0 and not full and mode != "info" and good:
        v = codec.classify(pw, got) if mode == "enc" and (lambda l: (1 << l[0]) * l[1] * l[2] <= 1 << 18)(codec.fields(got)) else None
        if mode == "enc" and v and v != (codec.OK, data) or mode == "dec" and got != data:
            raise Bad("%s: success with wrong output" % desc)
    if r.status and not r.err.strip():
        raise Bad("%s: failure without a message" % desc)
    if decides(env, "C19") and mode != "info":
        dump = read(d + "/dump")
        dk = None
        if mode == "dec" and oc not in ("badhdr", "toobig"):
            dk = codec.derive(usepw, data_bytes(32, case["seed"]), 4 + case["seed"] % 3, 2, 1)
        elif mode == "enc" and len(got) >= 96:
            l, rr, p, salt = codec.fields(got)
            if (1 << l) * rr * p <= 1 << 18:
                dk = codec.derive(pw, salt, l, rr, p)
        if dk:
            for name, b in (("encryption key", dk[:32]), ("authentication key", dk[32:])):
                for o in range(0, 32, 16):
                    if b[o:o + 16] in dump:
                        raise Bad("%s: the derived %s is still in memory at exit" % (desc, name))
            ks = aes256_schedule(dk[:32])
            # Not on the stack: what OpenSSL and the compiler spill there is
            # not the program's doing.
            i = dump.find(b" [stack]\n")
            dump0, dump = dump, dump[:i] if i >= 0 else dump
            for o in range(32, 240, 16):
                if ks[o:o + 16] in dump:
                    raise Bad("%s: a round key is still in memory at exit" % desc)
            dump = dump0
            env.nontrivial()
        if case["method"] == "env" and dump.count(usepw) > 1:
            raise Bad("%s: %d copies of the passphrase besides the environment's are in memory at exit" % (desc, dump.count(usepw) - 1))
    elif injected:
        env.nontrivial()
    env.tag(what)



TARGETS = {
    "cli_roundtrip": (roundtrip_cases, check_roundtrip, "non-empty data", ["cli"]),
    "cli_roundtrip_san": (roundtrip_cases, check_roundtrip, "non-empty data", ["cli-san"]),
    "cli_tamper": (tamper_cases, check_tamper, "decryption must fail", ["cli"]),
    "cli_untouched": (untouched_cases, check_untouched, "every case", ["cli"]),
    "cli_full": (full_cases, check_full, "the operation must fail", ["cli"]),
    "cli_pass": (pass_cases, check_pass, "non-empty or rejected passphrase", ["cli"]),
    "cli_info": (info_cases, check_info, "a valid header", ["cli"]),
    "cli_shim": (shim_cases, check_shim, "a call of the program fails, or keys were derived", ["cli", "lib:shim"]),
    "cli_salt": (salt_cases, check_salt, "every case", ["cli"]),
}


def _bins(target, bins):
    names = TARGETS[target][3]
    b = dict(bins)
    b["cli"] = bins[names[0]]
    return b


def run_target(target, prop, tier, seed, secs, jobs, tmp, bins, repdir):
    strat, check, rule, names = TARGETS[target]
    return hyp.drive(target, strat, check, rule, prop, seed, secs, jobs, tmp, _bins(target, bins), repdir, "cli", names)


def replay(d, tmp, bins):
    return hyp.replay(TARGETS[d["target"]][1], d, tmp, _bins(d["target"], bins))
