"""C18 / C17 on a real pseudo-terminal: the scrypt program runs as the
foreground job of its own session; lines, end of file and signals arrive in
generated orders."""
import errno, fcntl, json, os, resource, select, signal, struct, termios, time
from hypothesis import strategies as st
import codec, hyp
from hyp import Bad
from cli import BASEENV, read, write, data_bytes

SIGS = ["SIGALRM", "SIGHUP", "SIGINT", "SIGPIPE", "SIGQUIT", "SIGTERM", "SIGTSTP", "SIGTTIN", "SIGTTOU"]
STOP = {"SIGTSTP", "SIGTTIN", "SIGTTOU"}


class Session:
    def __init__(self, exe, argv, cwd, env, tweak, stdin_tty, stderr_tty, ignored):
        self.master, self.slave = os.openpty()
        a = termios.tcgetattr(self.slave)
        a[3] |= termios.ECHO | termios.ICANON | termios.ISIG | termios.ECHOE | termios.ECHOK
        if tweak & 1:
            a[3] &= ~termios.ECHO
        if tweak & 2:
            a[3] |= termios.ECHONL
        if tweak & 4:
            a[3] &= ~termios.ECHOE
        if tweak & 8:
            a[3] |= termios.TOSTOP
        if tweak & 16:
            a[1] &= ~termios.OPOST
        if tweak & 32:
            a[6][termios.VERASE] = b"\x08"
        termios.tcsetattr(self.slave, termios.TCSANOW, a)
        self.orig = termios.tcgetattr(self.slave)
        sr, sw = os.pipe()
        er, ew = os.pipe()
        self.ctl_r, self.ctl = os.pipe()
        self.err, self.out, self.events, self.sbuf, self.pid = b"", b"", [], b"", None
        self.fe, self.fs = er, sr
        self.leader = os.fork()
        if self.leader == 0:
            try:
                self._leader(exe, argv, cwd, env, sw, ew, stdin_tty, stderr_tty, ignored)
            finally:
                os._exit(99)
        os.close(sw)
        os.close(ew)
        os.close(self.ctl_r)
        os.set_blocking(self.master, False)
        os.set_blocking(er, False)
        os.set_blocking(sr, False)

    def _leader(self, exe, argv, cwd, env, sw, ew, stdin_tty, stderr_tty, ignored):
        for s in range(1, 32):
            if s not in (signal.SIGKILL, signal.SIGSTOP):
                signal.signal(s, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
        signal.signal(signal.SIGTTOU, signal.SIG_IGN)
        signal.signal(signal.SIGHUP, signal.SIG_IGN)
        os.setsid()
        fcntl.ioctl(self.slave, termios.TIOCSCTTY, 0)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        c = os.fork()
        if c == 0:
            os.setpgid(0, 0)
            os.tcsetpgrp(self.slave, os.getpid())
            signal.signal(signal.SIGTTOU, signal.SIG_DFL)
            signal.signal(signal.SIGHUP, signal.SIG_DFL)
            for s in ignored:
                signal.signal(getattr(signal, s), signal.SIG_IGN)
            null = os.open("/dev/null", os.O_RDWR)
            os.dup2(self.slave if stdin_tty else null, 0)
            os.dup2(self.slave if stderr_tty else null, 1)
            os.dup2(self.slave if stderr_tty else ew, 2)
            os.closerange(3, 256)
            os.chdir(cwd)
            os.execve(exe, [exe] + argv, env)
        os.write(sw, b'["pid", %d]\n' % c)
        os.close(ew)
        while True:
            _, s = os.waitpid(c, os.WUNTRACED)
            if os.WIFSTOPPED(s):
                os.write(sw, b'["stop", %d]\n' % os.WSTOPSIG(s))
                continue
            os.write(sw, (json.dumps(["sig", os.WTERMSIG(s)] if os.WIFSIGNALED(s) else ["exit", os.WEXITSTATUS(s)]) + "\n").encode())
            break
        os.close(self.ctl)
        os.read(self.ctl_r, 1)

    def pump(self, t):
        """Collects output for up to t seconds; returns as soon as something came."""
        r, _, _ = select.select([self.master, self.fe, self.fs], [], [], t)
        for f in r:
            try:
                b = os.read(f, 65536)
            except (BlockingIOError, InterruptedError):
                continue
            except OSError:
                b = b""
            if f == self.master:
                self.out += b
            elif f == self.fe:
                self.err += b
                if not b:
                    time.sleep(0.002)
            else:
                self.sbuf += b
                while b"\n" in self.sbuf:
                    l, self.sbuf = self.sbuf.split(b"\n", 1)
                    e = json.loads(l)
                    if e[0] == "pid":
                        self.pid = e[1]
                    else:
                        self.events.append(e)
        return bool(r)

    def wait(self, cond, secs):
        end = time.time() + secs
        while not cond():
            if time.time() > end:
                return False
            self.pump(0.05)
        return True

    def ended(self):
        return any(e[0] in ("exit", "sig") for e in self.events)

    def type(self, b):
        while b:
            try:
                n = os.write(self.master, b[:200])
                b = b[n:]
            except BlockingIOError:
                self.pump(0.01)

    def attrs(self):
        return termios.tcgetattr(self.slave)

    def settled(self):
        """Whether the process, having prompted, is asleep (waiting for input)."""
        n, end = 0, time.time() + 3
        while n < 4 and time.time() < end:
            try:
                st_ = open("/proc/%d/stat" % self.pid).read().rsplit(")", 1)[1].split()[0]
            except (OSError, IndexError):
                return False
            n = n + 1 if st_ == "S" else 0
            time.sleep(0.004)
        return n >= 4

    def close(self):
        self.wait(lambda: self.pid is not None, 5)
        if self.pid and not self.ended():
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
        self.wait(self.ended, 5)
        try:
            os.write(self.ctl, b"x")
        except OSError:
            pass
        end = time.time() + 10
        while os.waitpid(self.leader, os.WNOHANG)[0] == 0:
            if time.time() > end:
                os.kill(self.leader, signal.SIGKILL)
                os.waitpid(self.leader, 0)
                break
            time.sleep(0.001)
        for f in (self.ctl, self.master, self.slave, self.fe, self.fs):
            os.close(f)


text = st.one_of(st.integers(1, 12).map(lambda n: "Zq#%d;%s" % (n, "w" * n)), st.text(alphabet="QZXJ#;~ 09\u00e9", min_size=4, max_size=40).map(lambda s: "Q" + s + "Z"),
                 st.integers(4, 2000).map(lambda n: "".join("QZXJ#;~"[(i * i + i // 5) % 7] for i in range(n))))
step = st.one_of(
    st.tuples(st.just("line"), st.sampled_from(["same", "same", "same", "other", "empty", "prefix"])),
    st.tuples(st.just("line"), st.sampled_from(["same", "same", "other"])),
    st.tuples(st.just("erase"), st.just("same")),
    st.tuples(st.just("eof"), st.just("")),
    st.tuples(st.just("kill"), st.sampled_from(SIGS)),
    st.tuples(st.just("key"), st.sampled_from(["SIGINT", "SIGQUIT", "SIGTSTP"])),
    st.tuples(st.just("partkill"), st.sampled_from(SIGS)),
).map(list)
cases = st.fixed_dictionaries({
    "mode": st.sampled_from(["enc", "dec"]), "method": st.sampled_from(["default", "dev:tty-stdin", "dev:tty-once", "P", "dev:stdin-once"]),
    "text": text, "steps": st.lists(step, min_size=1, max_size=6), "tweak": st.integers(0, 63), "stdin_tty": st.booleans(), "stderr_tty": st.booleans(),
    "fifo": st.booleans(), "wrong": st.booleans(), "ignored": st.lists(st.sampled_from(["SIGINT", "SIGHUP", "SIGQUIT", "SIGTSTP"]), max_size=1), "delay": st.sampled_from([0, 0, 0.001, 0.01, 0.03]), "settle": st.booleans(),
})
P1, P2 = b"Please enter passphrase: ", b"Please confirm passphrase: "


def check(case, env):
    d = env.fresh()
    mode, meth = case["mode"], case["method"]
    T = case["text"]
    good = T.encode()
    data = b"some data\n" * 50
    src, out = d + "/in", d + "/out"
    write(src, data if mode == "enc" else codec.build(good if not case["wrong"] else b"different", data, b"s" * 32, 3, 2, 1))
    fifo = case["fifo"]
    if fifo:
        os.mkfifo(out)
    argv = [mode] + (["--logN=10", "-r1", "-p1", "-f"] if mode == "enc" else []) + ([] if meth == "default" else ["-P"] if meth == "P" else ["--passphrase", meth]) + [src, out]
    stdin_tty = case["stdin_tty"] or meth in ("P", "dev:stdin-once")
    confirm = mode == "enc" and meth in ("default", "dev:tty-stdin")
    S = Session(env.bins["cli"], argv, d, dict(BASEENV), case["tweak"], stdin_tty, case["stderr_tty"], case["ignored"])
    prompts = lambda: (S.out if case["stderr_tty"] else S.err).count(P1) + (S.out if case["stderr_tty"] else S.err).count(P2)
    fd = None
    typed, need, pend, result = [], 1, None, None     # lines typed; prompts expected; first entry; outcome
    sig = None
    try:
        steps = list(case["steps"])
        if not S.wait(lambda: S.pid is not None, 60):
            raise RuntimeError("the session does not start")
        while result is None:
            if not S.wait(lambda: prompts() >= need or S.ended(), 60):
                raise Bad("no prompt (%d of %d) after %s: %r" % (prompts(), need, typed, (S.err + S.out)[-300:]))
            if S.ended():
                raise Bad("the program ended (%s) before prompt %d: %r" % (S.events, need, S.err[-300:]))
            if case["delay"]:
                time.sleep(case["delay"])
            if S.attrs()[3] & termios.ECHO:
                raise Bad("echo is on at prompt %d" % need)
            a, b = steps.pop(0) if steps else ("line", "same")
            if a in ("line", "erase"):
                t = {"same": T, "other": T[:-1] + "J", "empty": "", "prefix": T[:-1]}[b]
                if a == "erase":
                    S.type((t + "xx").encode() + S.orig[6][termios.VERASE] * 2 + b"\n")
                else:
                    S.type(t.encode() + b"\n")
                typed.append(t)
                if not confirm:
                    result = "ok"
                elif pend is None:
                    pend = t
                    need += 1
                else:
                    if pend == t:
                        result = "ok"
                    else:
                        need += 1
                    pend = None
                last = t
            elif a == "eof":
                S.type(b"\x04")
                result = "eof"
            else:
                sig = b
                part = T[:3]
                if a == "partkill":
                    S.type(part.encode())
                    typed.append(part)
                    time.sleep(0.005)
                waiting = case["settle"] and S.settled()
                if a == "key":
                    S.type({"SIGINT": b"\x03", "SIGQUIT": b"\x1c", "SIGTSTP": b"\x1a"}[b])
                else:
                    os.kill(S.pid, getattr(signal, b))
                result = "signal"
        if result == "signal":
            ign = sig in case["ignored"]
            stopped = lambda: any(e[0] == "stop" for e in S.events)
            t0 = time.time()
            S.wait(lambda: S.ended() or stopped(), 10 if waiting and not ign else 0.4)
            if waiting and not ign and not S.ended() and not stopped():
                raise Bad("%s while waiting for input has no effect until more is typed" % sig)
            if sig in STOP and not ign:
                # (it may have to be typed through: the signal came just before the read)
                n = 0
                while not stopped() and not S.ended() and n < 40:
                    S.type(T.encode() + b"\n")
                    S.wait(lambda: S.ended() or stopped(), 0.4)
                    n += 1
                if not stopped():
                    raise Bad("%s during entry did not stop the process: %s" % (sig, S.events))
                if S.events[0][1] != getattr(signal, sig):
                    raise Bad("%s during entry: stopped by %s" % (sig, S.events))
                if S.attrs() != S.orig:
                    raise Bad("%s during entry: stopped without restoring the terminal settings" % sig)
                os.kill(S.pid, signal.SIGCONT)
                if fifo:
                    fd = os.open(out, os.O_RDONLY | os.O_NONBLOCK)
                n = 0
                while not S.ended() and n < 40:
                    S.wait(S.ended, 0.3)
                    if not S.ended():
                        S.type(T.encode() + b"\n")
                    n += 1
                if not S.ended():
                    raise Bad("%s during entry: the process does not end after being continued" % sig)
                if S.events[-1][0] != "exit" or S.events[-1][1] not in (0, 1):
                    raise Bad("%s during entry, continued: %s" % (sig, S.events))
            else:
                n = 0
                if fifo and ign:
                    fd = os.open(out, os.O_RDONLY | os.O_NONBLOCK)
                while not S.ended() and n < 40:
                    S.type(T.encode() + b"\n")
                    S.wait(S.ended, 0.4)
                    n += 1
                if not S.ended():
                    raise Bad("%s during entry: the process does not end" % sig)
                if ign:
                    if S.events[-1][0] != "exit":
                        raise Bad("ignored %s during entry: %s" % (sig, S.events))
                elif S.events[-1] != ["sig", getattr(signal, sig)]:
                    raise Bad("%s during entry did not terminate the process: %s, %r" % (sig, S.events, S.err[-200:]))
                elif os.path.exists(out) and not fifo and env.prop == "C09":
                    raise Bad("output created")
        elif result == "eof":
            if not S.wait(S.ended, 60):
                raise Bad("end of file does not end the entry")
            if S.events[-1] != ["exit", 1]:
                raise Bad("end of file during entry: %s" % S.events)
        else:
            blocked = fifo and not (mode == "dec" and (case["wrong"] or last != T))
            if blocked:
                # the program now waits for a reader of the output
                mask = sum(1 << (getattr(signal, s) - 1) for s in SIGS)
                ignm = sum(1 << (getattr(signal, s) - 1) for s in case["ignored"])
                st_ = {}

                def quiet():
                    if S.ended():
                        return True
                    try:
                        for l in open("/proc/%d/status" % S.pid):
                            if l.startswith(("SigCgt", "SigIgn")):
                                st_[l[:6]] = int(l.split()[1], 16)
                    except OSError:
                        return False
                    return not st_.get("SigCgt", mask) & mask and S.attrs() == S.orig
                if not S.wait(quiet, 20):
                    raise Bad("after the entry: caught signals %x, ignored %x, terminal %s" % (st_.get("SigCgt", 0), st_.get("SigIgn", 0), "restored" if S.attrs() == S.orig else "not restored"))
                if not S.ended() and st_["SigIgn"] & mask != ignm:
                    raise Bad("after the entry: ignored signals %x instead of %x" % (st_["SigIgn"] & mask, ignm))
                fd = os.open(out, os.O_RDONLY | os.O_NONBLOCK)
                got = b""
                end = time.time() + 30
                while time.time() < end:
                    over = S.ended()
                    try:
                        b = os.read(fd, 65536)
                    except BlockingIOError:
                        b = None
                    if b:
                        got += b
                    elif over:
                        break
                    else:
                        S.pump(0.01)
            if not S.wait(S.ended, 60):
                raise Bad("the program does not end after the entry")
            if not blocked:
                got = read(out) if os.path.exists(out) and not fifo else b""
            okay = mode == "enc" or (last == T and not case["wrong"])
            if S.events[-1] != ["exit", 0 if okay else 1]:
                raise Bad("after entering %r: %s: %r" % (typed[-2:], S.events, S.err[-300:]))
            if okay and env.prop in ("C17", "X00"):
                if mode == "enc":
                    v, pl = codec.classify(last.encode(), got)
                    if v != codec.OK or pl != data:
                        raise Bad("not encrypted with the passphrase that was typed (%s)" % v)
                elif got != data:
                    raise Bad("wrong plaintext")
        S.pump(0.01)
        while S.pump(0.0) and len(S.out) < 1 << 20:
            if not select.select([S.master], [], [], 0)[0]:
                break
        if S.attrs() != S.orig:
            raise Bad("terminal settings not restored after %s (%s)" % (result, sig or ""))
        # nothing typed may have come back
        for t in set(typed):
            e = t.encode()
            if len(e) >= 3 and (e[:3] in S.out or e[-3:] in S.out):
                raise Bad("typed characters were echoed: %r" % S.out[-300:])
        if need > 1 or result != "ok":
            env.nontrivial()
        env.tag(result if not sig else sig)
        if case["delay"] == 0 and sig:
            env.tag("signal right after the prompt")
    finally:
        if fd is not None:
            os.close(fd)
        S.close()


TARGETS = {"pty": (cases, check, "more than one line, end of file or a signal", ["cli"])}


def run_target(target, prop, tier, seed, secs, jobs, tmp, bins, repdir):
    strat, chk, rule, names = TARGETS[target]
    b = dict(bins)
    b["cli"] = bins[names[0]]
    return hyp.drive(target, strat, chk, rule, prop, seed, secs, jobs, tmp, b, repdir, "ptycli", names)


def replay(d, tmp, bins):
    b = dict(bins)
    b["cli"] = bins[TARGETS[d["target"]][3][0]]
    return hyp.replay(TARGETS[d["target"]][1], d, tmp, b)
