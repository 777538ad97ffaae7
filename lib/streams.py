"""Reading streams only to help the trace specifications find their way: every
hint given to TLC is verified there, and where reading fails the hints are
empty, so that TLC rejects the trace."""


def huffman_hints(kind, stream, msg):
    """idx, cnt, asc for HuffmanTrace; msg: list of packed symbols"""
    leaf = 11 if kind == "rgb" else 6
    p, depth, syms = 8, 1, []
    while depth > 0 and p < len(stream) and len(syms) < 200000:
        if stream[p] == 1:
            depth += 1
            p += 1
        else:
            v = stream[p + 1:p + 1 + leaf]
            if len(v) < leaf:
                break
            if kind == "rgb":
                s = v[8] << 16 | v[9] << 8 | v[10]
            else:
                s = 0
                for k in (0, 2, 4):
                    x = v[k] | v[k + 1] << 8
                    x = x - 65536 if x >= 32768 else x
                    s = s * 511 + x + 255
            syms.append(s)
            depth -= 1
            p += 1 + leaf
    where = {}
    for i, s in enumerate(syms):
        where.setdefault(s, i + 1)
    idx = [where.get(m, 0) for m in msg]
    cnt = [0] * len(syms)
    for i in idx:
        if i:
            cnt[i - 1] += 1
    asc = sorted(range(1, len(syms) + 1), key=lambda i: cnt[i - 1])
    return idx, cnt, asc


def diffs(px, order):
    prev, res = 0, []
    for i in order:
        c = px[i - 1]
        s = 0
        for k in (16, 8, 0):
            s = s * 511 + ((c >> k) & 255) - ((prev >> k) & 255) + 255
        res.append(s)
        prev = c
    return res


def zipdict_hints(data, body, budget=3000000, sample=None):
    """Hints for ZipDictTrace: data and the compressed pairs as bytes.
    sample: a random generator; where checking all the symbols is too much, check
    that many of them are as long as possible"""
    n = len(data)
    a, b = [], []
    for k in range(0, len(body) - 3, 4):
        a.append(body[k] | body[k + 1] << 8)
        b.append(body[k + 2] | body[k + 3] << 8)
    ragged = len(body) % 4
    start = [1]
    pos = 1
    second = []

    def length(c, k):
        if c < 256:
            return 1
        if c == 65535:
            return 0
        e = c - 255
        return start[e] - start[e - 1] if e <= k else 1
    for k in range(len(a)):
        p2 = pos + length(a[k], k)
        second.append(p2)
        pos = p2 + length(b[k], k)
        start.append(pos)
    np = len(a)
    defs = min(65535 - 256, 0 if np == 0 else (np - 1 if b[-1] == 65535 else np))
    key = lambda p: data[p - 1] * 256 + data[p] if p < n else -1
    perm = sorted(range(1, defs + 1), key=lambda e: (key(start[e - 1]), e))
    inv = [0] * defs
    for i, e in enumerate(perm):
        inv[e - 1] = i + 1
    rng = {}
    for i, e in enumerate(perm):
        kk = key(start[e - 1])
        if kk in rng:
            rng[kk][1] = i + 1
        else:
            rng[kk] = [i + 1, i + 1]
    import bisect
    keys = sorted(rng)
    cost = 0

    def find(p):
        nonlocal cost
        kk = key(p)
        if kk in rng:
            cost += rng[kk][1] - rng[kk][0] + 1
            return rng[kk]
        j = bisect.bisect_left(keys, kk)
        x = rng[keys[j]][0] if j < len(keys) else defs + 1
        return [x, x - 1]
    r1 = [find(start[k]) for k in range(np)]
    r2 = [find(second[k]) for k in range(np)]
    t = dict(a=a, b=b, start=start, n=n, greedy=int(cost <= budget), perm=perm, inv=inv,
             lo1=[x[0] for x in r1], hi1=[x[1] for x in r1], lo2=[x[0] for x in r2], hi2=[x[1] for x in r2])
    if not t["greedy"] and sample:
        t["greedy"] = 1
        for lo, hi in ((t["lo1"], t["hi1"]), (t["lo2"], t["hi2"])):
            for k in range(np):
                if sample.random() > budget / cost:
                    lo[k] = hi[k] = -1
    if not t["greedy"]:
        t.update(perm=[], inv=[], lo1=[0] * np, hi1=[0] * np, lo2=[0] * np, hi2=[0] * np)
    return t, ragged


def serial(px, order=None):
    out = bytearray()
    for c in ([px[i - 1] for i in order] if order else px):
        out += bytes((3, 0, 0, 0, 0, 0, 0, 0, c >> 16, (c >> 8) & 255, c & 255))
    return bytes(out)


def zipback_hints(data, stream, budget=3000000, sample=None):
    """sample: (a random generator, a number of symbols to look at)"""
    n = len(data)
    if sample:
        at, lo, kinds = 0, [], [0, 0]
        while at + 1 < len(stream):
            v = stream[at] | stream[at + 1] << 8
            at += 4 if v >= 32768 else 2 + v
            kinds[v >> 15] += 1
            lo.append(0)
        for k in sample[0].sample(range(len(lo)), min(len(lo), sample[1])):
            lo[k] = 1
        return dict(n=n, bytes=list(stream), maximal=3, perm=[], inv=[], lo=lo, hi=lo), kinds
    keys = max(0, n - 5)
    perm = sorted(range(1, keys + 1), key=lambda p: data[p - 1:p + 5])
    inv = [0] * keys
    for i, p in enumerate(perm):
        inv[p - 1] = i + 1
    rng = {}
    for i, p in enumerate(perm):
        k = data[p - 1:p + 5]
        if k in rng:
            rng[k][1] = i + 1
        else:
            rng[k] = [i + 1, i + 1]
    at, pos, lo, hi, cost = 0, 1, [], [], 0
    kinds = [0, 0]
    while at + 1 < len(stream):
        v = stream[at] | stream[at + 1] << 8
        r = rng.get(data[pos - 1:pos + 5], [0, 0]) if pos <= keys else [0, 0]
        lo.append(r[0])
        hi.append(r[1])
        cost += r[1] - r[0]
        if v >= 32768:
            at += 4
        else:
            at += 2 + v
        kinds[v >> 15] += 1
        pos += v & 32767
    maximal = int(cost <= budget)
    return dict(n=n, bytes=list(stream), maximal=maximal, perm=perm if maximal else [], inv=inv if maximal else [],
                lo=lo, hi=hi), kinds


def rle_runs(stream):
    """head, counts, colours, leftover of a run-length stream"""
    counts, colours = [], []
    p = 8
    while p + 12 <= len(stream):
        counts.append(stream[p])
        ok = stream[p + 1] == 3 and not any(stream[p + 2:p + 9])
        colours.append(stream[p + 9] << 16 | stream[p + 10] << 8 | stream[p + 11] if ok else -1)
        p += 12
    return list(stream[:8]), counts, colours, len(stream) - p
