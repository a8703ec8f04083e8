"""Answers of the oracle tool t_window (independent of the repository)."""
import build, vlib


def query(lines):
    """{query line: answer} for queries of t_window."""
    t = build.tool("t_window", ["t_window.cpp"])
    q = sorted(set(lines))
    out = {}
    parts = [q[i::16] for i in range(16)]
    for p, r in zip(parts, vlib.pmap(lambda p: vlib.run([t], timeout=600, stdin="\n".join(p) + "\n") if p else None, parts)):
        if r is None:
            continue
        a = r.out.split("\n")
        if r.rc != 0 or len(a) < len(p) + 1:
            raise build.BuildError("oracle t_window failed: %s %s" % (r.rc, r.err[-300:]))
        for x, y in zip(p, a):
            out[x] = y
    return out


def text(answer):
    return "" if answer == "-" else bytes.fromhex(answer).decode()
