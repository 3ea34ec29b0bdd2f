"""Integer constants that appear in the tree's C sources (and small
expressions of them): boundary values the generators visit."""
import glob, os, re
import build

NUM = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])")
SHIFT = re.compile(r"\(?\s*(?:\([a-z0-9_ ]+\)\s*)?\(?1[uUlL]*\)?\s*<<\s*(\d+)")


def constants():
    out = {}
    files = build.repo_sources() + [os.path.join(build.REPO, "main.c")]
    for d in build.INCS:
        files += glob.glob(os.path.join(build.REPO, d, "*.h"))
        files += glob.glob(os.path.join(build.REPO, d, "*_shared.c"))
    for f in sorted(set(files)):
        try:
            t = open(f, errors="replace").read()
        except OSError:
            continue
        t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
        t = re.sub(r"//[^\n]*", " ", t)
        t = re.sub(r'"(\\.|[^"\\])*"', " ", t)
        loc = {}
        for m in NUM.finditer(t):
            s = m.group(1)
            v = int(s, 16) if s[:2].lower() == "0x" else int(s, 8) if s[0] == "0" and len(s) > 1 and set(s) <= set("01234567") else int(s)
            loc[v] = loc.get(v, 0) + 1
        for m in SHIFT.finditer(t):
            v = 1 << min(63, int(m.group(1)))
            loc[v] = loc.get(v, 0) + 1
        if len(loc) > 150:      # tables (round constants, vectors)
            loc = {v: n for v, n in loc.items() if n > 1}
        for v in loc:
            if 1 < v < 1 << 64:
                out[v] = out.get(v, 0) + 1
    # products and sums with the block sizes the code uses
    base = [v for v in out if v <= 1 << 20]
    return sorted(out)


def write(path):
    c = constants()
    with open(path, "w") as f:
        f.write("\n".join(map(str, c)) + "\n")
    return path


if __name__ == "__main__":
    print(constants())
