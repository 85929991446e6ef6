"""Which jobs decide which property."""
from jobs import *

MAC_ATTRS = [[(9, 5, 1)], [(UNK, 3, 0)], [(7, 8, 0)], [(15, 6, 0), (UNK, 1, 0)]]


def fp_jobs():
    for i, m in enumerate([[], [(9, 5, 1)], [(UNK, 3, 0)], [(7, 20, 0)], [(15, 6, 0), (UNK, 1, 0)], [(3, 6, 1)], [(21, 4, 0), (24, 8, 0), (22, 0, 0)],
                           [(1, 120, 1), (UNK, 200, 9)], [(2, 20, 0)]]):
        yield job("h_dec", i % 4, 2, m + [(11, 4, 0)])
        yield job("h_dec", i % 4, 2, m + [(11, 4, 0), (9, 2, 1)])
    for l in (0, 3, 5, 8, 20):
        yield job("h_dec", l % 4, 2, [(11, l, 0)])
    yield job("h_dec", 1, 2, [(11, 4, 0), (11, 4, 0)])
    yield job("h_dec", 1, 2, [(9, 3, 1), (11, 4, 1), (UNK, 6, 0), (11, 4, 0)])
    for i, m in enumerate([[], [(7, 8, 0)], [(1, 5, 1), (9, 3, 1)], [(15, 300, 0)], [(25, 4, 0), (12, 4, 0), (3, 3, 1)]]):
        yield job("h_create", i % 4, 2, (0, 1, 0, 0, 0), m)
    # corruption of the CRC value itself
    yield job("h_burst", 0, 24, [])
    yield job("h_burst", 1, 32, [(9, 3, 1)])
    yield job("h_burst", 2, 20 + 8 + 4 + 8 + 4, [(9, 5, 1), (UNK, 4, 0)])


def bursts():
    for off in (8, 12, 16):
        yield job("h_burst", 0, off, [(9, 4, 1)], time=800)
    yield job("h_burst", 1, 24, [(15, 4, 0)], time=800)
    yield job("h_burst", 1, 28, [(15, 12, 0)], time=800)


def fp_reserved():
    """received reserved bits under FINGERPRINT / MESSAGE-INTEGRITY (known finding)"""
    for t in RESERVED_TYPES:
        yield job("h_dec", 0, 3, [(t, LEN_V[KINDS[t]][0], 1), (11, 4, 1)])


def mi_reserved():
    for t in RESERVED_TYPES:
        yield job("h_mi", 0, 3, (0, 6, 0, 0, 0), [(t, LEN_V[KINDS[t]][0], 1)])


XOR_T = [7, 8, 14, 16]
NET_T = [0, 7, 8, 10, 14, 16, 26, 28]


def tot_q(sets=(0, 1, 2, 3, 4, 5, 6), ns=(0, 1, 4, 19, 20, 21, 23, 24, 25, 26, 27)):
    return total(ns, sets)


def broken_all():
    yield from dec_mixes(BROKEN)
    for t in range(32):
        k = KINDS[t]
        bad = [l for l in LEN_Q[k] if l not in LEN_V[k]][:3]
        for l in bad:
            yield job("h_dec", (t + l) % 4, 2, [(t, l, 0)])


def struct_jobs():
    yield from dec_singles(types=[UNK])
    yield from dec_singles(lens=LEN_V, types=range(32))
    yield from dec_mixes()
    for l in (0, 1, 2, 3, 4, 5, 21):
        yield job("h_dispatch", 5, l, 0)
    yield from dec_long_mix()
    yield from many()
    for l in (127, 128, 129, 255, 256, 257, 1024, 65528):
        yield job("h_dec", l % 4, 0, [(UNK, l, 9)])


def seeded(seed, n, func="h_dec"):
    """pseudo-random message shapes (types, lengths, order); contents stay symbolic"""
    r = random.Random(seed * 1000003 + n)
    for i in range(n):
        m = []
        for _ in range(r.randrange(1, 5)):
            t = r.choice(ALL)
            if func != "h_dec" and t in (2, 11, UNK):
                t = 15
            k = kind(t)
            lens = LEN_V[k] if k else [0, 1, 2, 3, 4, 7]
            if k in ("User", "Text", "Bytes", None):
                lens = list(range(0, 12))
            if k == "ErrC":
                lens = list(range(4, 12))
            if func != "h_dec":
                lens = ENC_LEN[k]
            m.append((t, r.choice(lens), 1))
        if func == "h_dec":
            yield job("h_dec", r.randrange(4), 2, m)
        elif func == "h_enc":
            yield job("h_enc", r.randrange(4), m)
        elif func == "h_chunk_dec":
            yield job("h_chunk_dec", r.randrange(4), 2, r.choice([0, 1, 3, 4, 5]), m)
        elif func == "h_chunk_enc":
            yield job("h_chunk_enc", r.randrange(4), r.choice([0, 1, 3]), m)
        elif func == "h_create":
            yield job("h_create", r.randrange(4), 3, (0, r.randrange(0, 70), 0, 0, 0), m)


def quick(p, seed):
    if p == "P01":
        yield from FIXED[:2]
        yield from dec_classes()
        yield from dec_mixes(MIXES[:6])
        yield from enc_mixes()
        yield job("h_ctor", 40, 0, 0)
        yield from total((19, 20, 21, 24), (1, 2))
        for c in range(4):
            yield job("h_enc", c, [(21, 4, 0)])
        yield from dec_long_mix()
        yield from dec_mixes(BROKEN[:3])
    elif p == "P02":
        yield from bigmac([BIGMAC[i] for i in (0, 3, 4, 6)])
        yield from tot_q()
        yield from dec_singles()
        yield from dispatch()
        yield from dec_long(BULK_Q[::4])
        yield from dec_mixes(BROKEN)
        yield from fp_jobs()
    elif p == "P03":
        yield from broken_all()
        yield from tot_q(sets=(0, 1, 3), ns=(20, 21, 22, 24, 25))
        yield from trunc_jobs()
        yield from dispatch(sets=(0, 1, 3, 4))
        yield from hooks(2)
        yield from reuse_dec()
    elif p == "P04":
        yield from struct_jobs()
        yield from dispatch()
        yield from seeded(seed, 30)
        yield from tot_q(sets=(1, 2), ns=(24, 25, 26, 28))
    elif p == "P05":
        yield from dec_singles(lens=LEN_V, types=range(32))
        yield from dec_singles(types=[UNK])
        yield from res_jobs()
        yield from res_jobs(flags=3)
        yield from anychar()
        yield from dec_mixes()
        yield from dec_long()
        yield from dec_long_mix()
        yield from many()
        yield from dispatch(sets=(4, 5))
        yield from seeded(seed + 1, 40)
        yield job("h_chunk_dec", 1, 2, 1, MIXES[3])
    elif p == "P06":
        yield from enc_singles()
        yield from anychar("h_enc")
        yield from enc_mixes()
        yield from enc_long()
        yield from seeded(seed, 40, "h_enc")
        yield from create_jobs(SHORT[2:4])
        yield from big()
    elif p == "P07":
        yield from enc_singles()
        yield from dec_singles(lens=LEN_V, types=range(32))
        yield from res_jobs()
        yield from enc_mixes()
        yield from net()
        yield FIXED[2]
    elif p == "P08":
        yield from dec_singles()
        yield from anychar()
        yield from dec_limits()
        yield from dispatch(sets=(0, 1, 2, 3, 4))
        yield from single()
        yield from net(steps=(3,))
        yield from dec_long(BULK_Q[::3])
        yield from dec_mixes(BROKEN)
    elif p == "P09":
        yield from net()
        yield from enc_singles(types=NET_T)
        yield from dec_singles(types=NET_T)
        yield from dec_pairs(XOR_T)
        yield from chunk_each(types=NET_T)
        yield from res_jobs(NET_T)
        for c in range(4):
            for t in XOR_T:
                yield job("h_enc", c, [(t, 20, 0), (t, 8, 0)])
    elif p == "P10":
        yield from bigmac([BIGMAC[i] for i in (0, 6, 7)])
        yield from fp_jobs()
        yield from fp_reserved()
        yield job("h_dispatch", 0, 8, 1)
        yield job("h_mi", 2, 2 + 32, (0, 6, 0, 0, 0), [(7, 20, 0)])
        yield job("h_mi", 3, 2 + 16 + 32, (0, 6, 0, 0, 0), [(UNK, 6, 0), (3, 7, 1)])
        yield from create_jobs(SHORT[2:3])
        yield from big()
    elif p == "P11":
        yield from mi_jobs()
        yield from mi_anychar()
        yield from mi_reserved()
        yield from create_jobs(SHORT[:4])
        yield from dec_singles(types=[2])
        for c in ((0, 62, 0, 0, 0), (0, 66, 0, 0, 0), (0, 20, 0, 0, 2), (1, 5, 6, 7, 2)):
            yield job("h_mi", 0, 2 + 64, c, [(9, 3, 1)], **is_long(c))
        yield from big()
    elif p == "P12":
        yield from create_anychar()
        yield from create_jobs()
        yield from seeded(seed, 16, "h_create")
        yield from mi_jobs(SHORT[1:3] + LONGC[:1])
        yield from big()
    elif p == "P13":
        yield from chunk_dec()
        yield from chunk_dec2()
        yield from chunk_each()
        yield from trunc_jobs()
        yield from seeded(seed, 16, "h_chunk_dec")
        yield from net()
        yield from drops()
        yield from tot_q(sets=(0, 1), ns=(24, 25, 26, 27))
    elif p == "P14":
        yield from chunk_enc2()
        yield from chunk_enc()
        yield from seeded(seed, 16, "h_chunk_enc")
        yield from busy()
        yield from net()
        yield from drops()
    elif p == "P15":
        yield from reuse_dec()
        yield from hooks(2)
        yield from drops((3, 4))
        yield from setenc()
    elif p == "P16":
        yield from busy()
        yield from hooks(3)
        yield from big()
        yield from setenc()
        yield from chunk_enc(modes=(0,), each=False)
        yield from enc_mixes(ENC_MIXES[:3])
    elif p == "P17":
        yield from ctor()
        yield from anychar()
        yield from anychar("h_enc")
        yield from dec_limits()
        yield FIXED[1]
        yield from enc_long()
    elif p == "P18":
        yield from bigmac([BIGMAC[i] for i in (1, 2, 5, 8)])
        yield from big()
        yield from dec_long()
        yield from enc_long()
        yield from dec_long_mix()
    elif p == "P19":
        yield from dec_mixes()
        yield from dec_pairs([0, 7, 9, 15, 17, 21, 23, UNK])
        yield from enc_mixes()
        yield FIXED[1]
        yield from very_many()
        yield from many()
        yield from seeded(seed + 2, 40)
        yield from hooks(2)
        yield from drops((3, 4))
    elif p == "P20":
        yield FIXED[2]
        yield job("h_display", 0, 9, fmt="real")
        yield job("h_display", 1, 0, fmt="real")
        for x in (0, 2400, 4032):
            yield job("h_display", 2, 6, x, fmt="real")
        yield job("h_display", 3, 0, fmt="real")
        yield from enc_singles(types=[3])
        yield from dec_singles(types=[3])
        yield from ctor([3, 40])
        yield from res_jobs([3])
    elif p == "P21":
        yield FIXED[1]
        yield from ctor([12])
        yield from dec_singles(types=[12])
        yield from enc_singles(types=[12])
        yield from res_jobs([12])
    elif p == "P22":
        yield from dispatch()
        yield from single()
        yield from setenc()
        yield from drops()
        yield from dec_singles(lens=LEN_V)
        yield from enc_singles()
    elif p == "P23":
        yield from hooks(4)
        yield from busy()
        yield from drops((3,))
        yield from fp_jobs()
    elif p == "P24":
        yield from hooks(4)
        yield from drops()
        yield from busy()
        yield from reuse_dec()
        yield from setenc()
        yield from chunk_dec(modes=(1, 4))
        yield from tot_q(sets=(1, 2), ns=(20, 24, 26))
        yield from big()
    elif p == "P25":
        yield from trunc_jobs()
        yield from tot_q(sets=(0, 1, 2, 3), ns=(0, 1, 19, 20, 21, 22, 24, 25, 26))
        yield from chunk_dec(modes=(0, 4))
        yield from reuse_dec()
        yield from dec_long_mix()
        yield from bigmac([BIGMAC[4]])
    elif p == "P26":
        yield from coders()
        yield from setenc()
        yield from net()
    elif p == "P27":
        yield from equals()
        yield job("h_ids")
        yield from mi_clones()
        yield from enc_mixes()
        yield from enc_singles()
        yield from drops()
    elif p == "P28":
        yield from extends()


W = {  # pseudo-random shapes: harness -> number of jobs (quick), share of jobs with a broken attribute
    "P01": [("h_dec", 150, .2), ("h_enc", 100, 0)],
    "P02": [("h_dec", 200, 1), ("h_dec", 60, 0)],
    "P03": [("h_dec", 200, 1), ("h_reuse_dec", 100, 0)],
    "P04": [("h_dec", 300, .5), ("h_stream", 40, 0)],
    "P05": [("h_dec", 300, 0), ("h_extend", 60, 0)],
    "P06": [("h_enc", 400, 0), ("h_extend", 100, 0)],
    "P07": [("h_dec", 200, 0), ("h_enc", 300, 0)],
    "P08": [("h_dec", 300, .7)],
    "P09": [("h_dec", 200, 0), ("h_enc", 200, 0)],
    "P10": [("h_fp", 150, 0), ("h_extend", 50, 0)],
    "P11": [("h_mi", 150, 0)],
    "P12": [("h_create", 120, 0), ("h_extend", 60, 0)],
    "P13": [("h_chunk_dec", 150, .3), ("h_stream", 100, 0)],
    "P14": [("h_chunk_enc", 200, 0), ("h_stream_enc", 60, 0)],
    "P15": [("h_reuse_dec", 150, 0), ("h_stream", 100, 0)],
    "P16": [("h_stream_enc", 120, 0)],
    "P19": [("h_dec", 300, .3), ("h_extend", 50, 0)],
    "P22": [("h_dec", 100, .3), ("h_enc", 100, 0)],
    "P25": [("h_trunc", 120, 0), ("h_stream", 100, 0)],
    "P26": [("h_coder", 300, 0)],
    "P28": [("h_extend", 300, 0)],
}


def rep(n, *pat):
    """a list of n attributes repeating a pattern"""
    return [pat[i % len(pat)] for i in range(n)]


def mi_clones():
    for c in ((0, 6, 0, 0, 0), (0, 0, 0, 0, 0), (1, 3, 3, 3, 0)):
        for f in (2 + 128, 2 + 128 + 16 + 32):
            for m in ([], [(9, 3, 1)], [(UNK, 5, 0), (7, 8, 1)]):
                yield job("h_mi", (c[1] + f // 16) % 4, f, c, m, **is_long(c))


def hundreds(p):
    """long lists and long histories: counters and indices beyond 8 bits"""
    if p in ("P11", "P12"):
        yield from mi_clones()
    A, B, Z, D = (UNK, 1, 1), (13, 4, 1), (19, 0, 1), (15, 3, 1)
    msg = lambda c, m: [c, 2, len(m)] + [x for a in m for x in a]
    emsg = lambda k, c, m: [k, c, len(m)] + [x for a in m for x in a]
    if p in ("P01", "P15", "P13", "P25"):
        yield job("h_stream", 7, 300, sum([msg(i % 4, []) for i in range(300)], []))
        yield job("h_stream", 13, 270, sum([msg(i % 4, [B] if i % 3 else [A, D]) for i in range(270)], []))
        # most of them broken (a LIFETIME of three bytes)
        yield job("h_stream", 9, 270, sum([msg(i % 4, [(13, 3, 1)] if i % 7 else [B, Z]) for i in range(270)], []))
    if p in ("P01", "P16", "P14"):
        yield job("h_stream_enc", 7, 300, sum([emsg(0, i % 4, []) for i in range(300)], []))
        yield job("h_stream_enc", 13, 270, sum([emsg(0, i % 4, [B] if i % 3 else [D, Z]) for i in range(270)], []))
    if p in ("P02", "P04", "P05", "P19", "P22"):
        yield job("h_dec", 0, 2, rep(1000, A, Z))
        yield job("h_dec", 1, 2, rep(300, B, (UNK, 4, 1), (UNK, 8, 1)))
        yield job("h_dec", 3, 2, rep(300, A) + [B, Z])
    if p in ("P06", "P07", "P19", "P22"):
        yield job("h_enc", 0, rep(1000, Z))
        yield job("h_enc", 1, rep(300, B, D, (24, 8, 1)))
    if p in ("P13", "P25"):
        yield job("h_chunk_dec", 1, 2, 1, rep(280, A, Z))
        yield job("h_chunk_dec", 2, 2, 3, rep(280, B, (UNK, 5, 1)))
    if p == "P14":
        yield job("h_chunk_enc", 1, 1, rep(280, Z))
        yield job("h_chunk_enc", 2, 1, rep(280, B, D))
    if p == "P15":
        yield job("h_reuse_dec", 1, 2, 0, rep(270, A, Z), 0, 2, [(9, 3, 1)])
        yield job("h_reuse_dec", 1, 2, 0, [(9, 3, 1)], 0, 2, rep(270, Z, A))
        yield job("h_reuse_dec", 1, 2, 3, rep(40, A, B), 0, 2, [(9, 3, 1)])
    if p == "P10":
        yield job("h_dec", 1, 2, rep(270, Z) + [(11, 4, 0)])
    if p in ("P10", "P11", "P12"):
        yield job("h_create", 1, 3, (0, 6, 0, 0, 0), rep(270, Z))
    if p == "P28":
        yield job("h_extend", 0, 2, rep(260, A, Z), [B, (9, 3, 1)])
        yield job("h_extend", 1, 2, [(9, 5, 1), A], rep(260, Z))
    if p in ("P23", "P24", "P16", "P15"):
        yield job("h_after", 1, 290)
        yield job("h_before", 2, 270)
    if p == "P03":
        yield job("h_after", 1, 290)


def extra(p, seed):
    yield from hundreds(p)
    for f, n, b in W.get(p, []):
        yield from wide(seed, n, f, b)
    if p in ("P02", "P05", "P08", "P17"):
        for x in LONG_TEXT2:
            yield job("h_dec", x[1] % 4, 0, [x])
    if p in ("P06", "P17"):
        for t, l, m in LONG_TEXT2:
            if m not in (6, 8):
                yield job("h_enc", l % 4, [(t, l - (4 if t == 3 else 0), m)])
    if p in ("P10", "P11", "P12"):
        yield from mac_len()
    if p in ("P04", "P19", "P05"):
        yield from many(257)
        yield from many(300)
    if p in ("P06", "P14", "P27"):
        yield from many_enc(257)
        yield from many_enc(300)
    if p in ("P13", "P25"):
        yield from chunk_long()
    if p == "P14":
        yield from chunk_enc_long()


def thorough(p, seed):
    yield from quick(p, seed)
    wide = {k: sorted(set(v) | set(range(0, 14))) for k, v in LEN_Q.items()}
    for k in ("User", "Text"):
        wide[k] = list(range(0, 7))
    for k in ("ErrC",):
        wide[k] = list(range(0, 11))
    if p in ("P01", "P05", "P06", "P07", "P19", "P04"):
        yield from seeded(seed + 7, 300)
        yield from seeded(seed + 8, 200, "h_enc")
    if p in ("P02", "P03", "P08", "P22"):
        yield from dec_singles(lens=wide)
        yield from total(range(0, 30), range(7))
        yield from dispatch(lens=(0, 1, 2, 3, 4), long_lens=(5, 6, 7, 8, 9, 12, 19, 20, 21))
    if p in ("P02", "P25", "P03"):
        yield from total((30, 31, 32), (2, 3, 4, 5, 6))
        yield from bigmac()
    if p in ("P05", "P19", "P04"):
        yield from dec_pairs(ALL)
        yield from dec_long(sorted(set(BULK_Q + list(range(508, 517)) + list(range(124, 133)) + [1000, 20000, 65000])))
    if p in ("P10", "P11", "P12"):
        yield from bursts() if p == "P10" else ()
        creds = [(0, l, 0, 0, m) for l in (2, 3, 5, 16, 31, 55, 56, 57, 60, 62, 66, 100, 127, 129, 200) for m in (0, 2)] + [(1, a, b, c, m) for a in (1, 16, 64) for b in (1, 20) for c in (1, 20) for m in (0, 3)]
        yield from mi_jobs(creds)
        yield from create_jobs(creds)
        yield from seeded(seed + 3, 100, "h_create")
    if p in ("P13", "P15", "P25"):
        yield from seeded(seed + 4, 120, "h_chunk_dec")
        for i, m in enumerate(MIXES):
            for mo in (0, 1, 3, 4, 5):
                yield job("h_chunk_dec", i % 4, 2, mo, m)
        for i, m in enumerate(MIXES[:6]):
            yield job("h_chunk_dec", i % 4, 2, 2, m, time=800)
        yield from reuse_dec(True)
    if p in ("P14", "P16"):
        yield from seeded(seed + 5, 120, "h_chunk_enc")
        for i, m in enumerate(ENC_MIXES[:7]):
            for mo in (0, 1, 2, 3):
                yield job("h_chunk_enc", i % 4, mo, m, time=800)
        for c, n in ((0, 4), (1, 5), (2, 6), (3, 7)):
            yield job("h_busy", c, n)
    if p in ("P16", "P23", "P24", "P03", "P15"):
        yield from hooks(7)
        yield from drops(range(0, 14))
    if p == "P20":
        yield job("h_display", 0, 12, fmt="real")
    if p in ("P18", "P10"):
        yield from bigmac()
        for l in range(65500, 65540):
            yield job("h_big", 1, l)
        for l in range(65496, 65528, 4):
            yield job("h_big_mac", l, 0, 0)


PROPS = ["P%02d" % i for i in range(1, 29)]
COST = {"h_burst": 9, "h_big_mac": 8, "h_display": 7}


def jobs_of(p, tier, seed):
    seen, out = set(), []
    for j in itertools.chain((quick if tier == "quick" else thorough)(p, seed), extra(p, seed)):
        if j not in seen:
            seen.add(j)
            out.append(j)

    def cost(j):
        c = COST.get(j[0], 0)
        if j[0] == "h_total":
            c = j[1][0] / 4
        if j[0] in ("h_chunk_dec", "h_chunk_enc") and j[1][2 if j[0] == "h_chunk_dec" else 1] == 2:
            c = 7.5
        return -c
    out.sort(key=cost)
    return out
