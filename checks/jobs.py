"""Jobs (harness, parameters) of every property.  A job is one symbolic execution of one harness;
everything not fixed by the parameters is a symbolic variable.  Parameters only fix shapes:
attribute types, lengths, message class, chunking mode."""
import itertools, os, random

# index into spec::TYPES -> kind
KINDS = ["Addr", "User", "Mi", "ErrC", "Unks", "Text", "Text", "Xor", "Xor", "Text", "Addr", "Fp",
         "Chan", "U32", "Xor", "Bytes", "Xor", "Even", "ReqT", "Empty", "U64", "U32", "Empty", "U64", "U64",
         "Chg", "Addr", "RPort", "Addr", "Bytes", "Fam", "Fam"]
UNK = 100
RESERVED_TYPES = [t for t, k in enumerate(KINDS) if k in ("Addr", "Xor", "ErrC", "Chan", "RPort", "Even", "ReqT", "Fam", "Chg")]

LEN_Q = {"Addr": [0, 1, 3, 4, 7, 8, 9, 12, 19, 20, 21, 24], "User": [0, 1, 2, 3, 4], "Text": [0, 1, 2, 3, 4],
         "ErrC": [0, 1, 3, 4, 5, 6, 7], "Unks": [0, 1, 2, 3, 4, 6, 7, 8], "Mi": [0, 4, 19, 20, 21, 24], "Fp": [0, 3, 4, 5, 8],
         "U32": [0, 1, 3, 4, 5, 8], "U64": [0, 4, 7, 8, 9, 12], "Empty": [0, 1, 2, 4], "Bytes": [0, 1, 2, 3, 4, 5, 7, 8],
         "Even": [0, 1, 2, 4], None: [0, 1, 2, 3, 4, 5, 8, 9]}
for k, b in (("Xor", "Addr"), ("Chan", "U32"), ("ReqT", "U32"), ("Chg", "U32"), ("RPort", "U32"), ("Fam", "U32")):
    LEN_Q[k] = LEN_Q[b]
# lengths at which an attribute of the kind can be valid
LEN_V = {"Addr": [8, 20], "Xor": [8, 20], "User": [0, 3], "Text": [0, 5], "ErrC": [4, 6], "Unks": [0, 2, 4], "Mi": [20], "Fp": [4],
         "U32": [4], "U64": [8], "Empty": [0], "Bytes": [0, 1, 6], "Even": [1], "Chan": [4], "ReqT": [4], "Chg": [4], "RPort": [4], "Fam": [4], None: [0, 3, 4, 5]}


def kind(t):
    return None if t == UNK else KINDS[t]


def job(func, *params, **opts):
    flat = []
    for p in params:
        if isinstance(p, (list, tuple)):
            if p and isinstance(p[0], (list, tuple)) or p == []:
                flat.append(len(p))
                for x in p:
                    flat += x
            else:
                flat += p
        else:
            flat.append(p)
    return (func, tuple(int(x) for x in flat), tuple(sorted(opts.items())))


ALL = list(range(32)) + [UNK]


def dec_singles(lens=LEN_Q, types=ALL, flags=2):
    """one attribute, arbitrary value and padding bytes"""
    for t in types:
        for l in lens[kind(t)]:
            yield job("h_dec", (t + l) % 4, flags, [(t, l, 0)])


def dec_classes(types=(0, 9, UNK)):
    for c in range(4):
        for t in types:
            yield job("h_dec", c, 2, [(t, 8, 1)])
        yield job("h_dec", c, 2, [])


def res_jobs(types=RESERVED_TYPES, flags=11):
    """reserved bits arbitrary as well; flags 3: they have to survive re-encoding"""
    for t in types:
        for l in LEN_V[kind(t)] if t in RESERVED_TYPES else []:
            yield job("h_dec", t % 4, flags, [(t, l, 1)])


# messages with several attributes
MIXES = [
    [(1, 5, 1), (UNK, 3, 0), (0, 8, 0)],
    [(7, 20, 0), (9, 6, 1), (11, 4, 1)],
    [(15, 5, 0), (UNK, 0, 0), (15, 2, 0), (3, 7, 1)],
    [(UNK, 1, 0), (21, 4, 0), (UNK, 2, 0), (22, 0, 0), (24, 8, 0)],
    [(2, 20, 0), (11, 4, 0)],
    [(11, 4, 1), (9, 3, 1), (11, 4, 1)],
    [(14, 8, 0), (14, 20, 0), (16, 8, 0), (18, 4, 0)],
    [(12, 4, 0), (14, 8, 0), (13, 4, 0)],
    [(4, 6, 0), (3, 4, 1), (4, 2, 0)],
    [(29, 3, 0), (17, 1, 0), (19, 0, 0), (20, 8, 0), (30, 4, 0), (31, 4, 0)],
    [(25, 4, 0), (27, 4, 0), (28, 8, 0), (26, 20, 0), (10, 8, 0)],
    [(5, 4, 1), (6, 6, 2), (1, 3, 3), (9, 4, 4)],
    [(UNK, 4, 0), (UNK, 4, 0), (UNK, 4, 0)],
    [(8, 8, 0), (7, 8, 0), (0, 20, 0)],
    [(23, 8, 0), (23, 8, 0), (21, 4, 0), (21, 4, 0)],
    [(2, 20, 0), (UNK, 5, 0), (9, 2, 1), (2, 20, 0)],
]
# one invalid attribute among valid ones
BROKEN = [
    [(1, 5, 1), (0, 7, 0), (9, 3, 1)],
    [(UNK, 3, 0), (12, 4, 0)],
    [(9, 4, 1), (3, 4, 0)],
    [(7, 8, 0), (11, 4, 0), (9, 3, 1)],
    [(24, 7, 0), (22, 0, 0)],
    [(22, 1, 0), (UNK, 2, 0)],
    [(30, 4, 0), (31, 4, 0)],
    [(15, 3, 0), (2, 19, 0)],
    [(6, 2, 0), (21, 4, 0)],
    [(0, 8, 0), (0, 20, 0)],
]


def dec_mixes(mixes=MIXES, flags=2):
    for i, m in enumerate(mixes):
        yield job("h_dec", i % 4, flags, m)


def dec_pairs(types, flags=2):
    """every ordered pair of attribute types, at a valid length"""
    for i, (a, b) in enumerate(itertools.product(types, types)):
        la = LEN_V[kind(a)][-1] if a != UNK else 3
        lb = LEN_V[kind(b)][-1] if b != UNK else 5
        yield job("h_dec", i % 4, flags, [(a, la, 1), (b, lb, 1)])


LONG_TEXT = [(5, 127, 1), (5, 128, 1), (6, 127, 1), (6, 128, 1), (9, 127, 1), (9, 128, 1), (1, 512, 1), (1, 513, 1), (3, 131, 1), (3, 767, 1),
             (5, 254, 2), (5, 256, 2), (6, 381, 3), (6, 384, 3), (9, 508, 4), (9, 512, 4), (1, 512, 4), (1, 514, 2), (1, 129, 1), (1, 255, 1), (1, 256, 1), (1, 257, 1)]
# multi-byte texts around the limits and around multiples of 256 bytes (ERROR-CODE: 4 more bytes)
LONG_TEXT2 = [(3, 767, 5), (3, 768, 7), (3, 772, 3), (3, 254, 2), (3, 258, 2), (3, 260, 2), (3, 262, 4), (3, 512, 4), (3, 767, 8), (3, 516, 6), (3, 385, 3), (3, 304, 3),
              (5, 381, 3), (6, 300, 3), (9, 260, 4), (6, 252, 2), (5, 127, 8), (9, 300, 6), (6, 200, 5), (9, 127, 7), (5, 250, 5), (1, 512, 8), (1, 512, 5), (1, 511, 7), (1, 510, 3), (1, 260, 5)]
LONG_BULK = [15, 29, UNK]
BULK_Q = [127, 128, 129, 255, 256, 257, 512, 763, 1024, 4095, 4096, 8192, 16383, 32767, 32768, 65527, 65528]


def dec_long(lens=BULK_Q, text=LONG_TEXT):
    for x in text:
        yield job("h_dec", x[1] % 4, 0, [x])
    for i, l in enumerate(lens):
        yield job("h_dec", l % 4, 0, [(LONG_BULK[i % 3], l, 9)])
        if l in (128, 256, 257, 65528):
            for t in LONG_BULK:
                yield job("h_dec", l % 4, 0, [(t, l, 9)])


def dec_long_mix():
    yield job("h_dec", 0, 0, [(15, 300, 9), (UNK, 257, 9), (9, 3, 1)])
    yield job("h_dec", 1, 0, [(UNK, 600, 9), (7, 8, 0), (29, 255, 9), (11, 4, 1)])
    yield job("h_dec", 3, 0, [(15, 40000, 9), (UNK, 20001, 9), (13, 4, 0)])


def many(n=24):
    yield job("h_dec", 2, 0, [(UNK if i % 3 == 0 else 21, 4, 0) for i in range(n)])
    yield job("h_dec", 2, 0, [(17 if i % 2 == 0 else UNK, 1, 0) for i in range(n)])


def very_many():
    """more attributes of one type than a byte counts, others behind them"""
    for n in (255, 256, 260):
        yield job("h_dec", n % 4, 0, [(19, 0, 0)] * n + [(21, 4, 0), (15, 3, 0), (UNK, 3, 0)])


def many_enc(n):
    yield job("h_enc", 2, [(21, 4, 0) if i % 3 == 0 else (19, 0, 0) for i in range(n)])
    yield job("h_enc", 3, [(17, 1, 0) if i % 2 else (20, 8, 0) for i in range(n)])


ENC_LEN = {"Addr": [8, 20], "Xor": [8, 20], "User": [0, 1, 2, 3, 4, 5], "Text": [0, 1, 3, 4, 5], "ErrC": [0, 1, 2, 3, 4, 5], "Unks": [0, 2, 4, 6],
           "U32": [4], "U64": [8], "Empty": [0], "Bytes": [0, 1, 2, 3, 4, 5, 8], "Even": [1], "Chan": [4], "ReqT": [4], "Chg": [4], "RPort": [4], "Fam": [8, 20], "Mi": [20], "Fp": [4]}


def enc_singles(lens=ENC_LEN, types=None):
    for t in (types if types is not None else range(32)):
        for l in lens[KINDS[t]]:
            yield job("h_enc", (t + l) % 4, [(t, l, 0)])


ENC_MIXES = [
    [(1, 5, 1), (0, 8, 0), (9, 3, 2)],
    [(7, 20, 0), (8, 8, 0), (14, 20, 0), (16, 8, 0)],
    [(3, 3, 1), (4, 6, 0), (15, 5, 0), (29, 2, 0)],
    [(12, 4, 0), (13, 4, 0), (17, 1, 0), (18, 4, 0), (19, 0, 0), (20, 8, 0), (21, 4, 0), (22, 0, 0), (23, 8, 0), (24, 8, 0)],
    [(25, 4, 0), (26, 8, 0), (27, 4, 0), (28, 20, 0), (30, 20, 0), (31, 8, 0)],
    [(5, 3, 3), (6, 4, 4), (10, 20, 0)],
    [],
    [(1, 127, 1), (9, 126, 1), (3, 200, 1)],
    [(9, 3, 1), (11, 4, 0), (13, 4, 1), (1, 4, 1)],
    [(2, 20, 0), (11, 4, 0), (2, 20, 0), (15, 3, 0), (11, 4, 0)],
    [(11, 4, 0), (11, 4, 0), (22, 0, 0)],
]


def enc_mixes(mixes=ENC_MIXES):
    for i, m in enumerate(mixes):
        yield job("h_enc", i % 4, m)


def enc_long():
    for x in [(5, 127, 1), (6, 254, 2), (9, 381, 3), (1, 512, 1), (1, 255, 1), (1, 256, 1), (3, 600, 1), (15, 127, 0), (15, 128, 0), (15, 255, 0), (15, 256, 0),
              (15, 257, 0), (29, 300, 0), (4, 256, 0), (4, 258, 0), (9, 508, 4)]:
        yield job("h_enc", x[1] % 4, [x])


def total(ns, sets):
    for s in sets:
        for n in ns:
            yield job("h_total", n, s)


# credentials: kind, password, user, realm lengths, text mode
SHORT = [(0, l, 0, 0, 0) for l in (0, 1, 8, 63, 64, 65, 128)]
LONGC = [(1, 4, 3, 5, 0), (1, 0, 0, 0, 0), (1, 40, 30, 60, 0)]


def is_long(c):
    return {"fmt": "real"} if c[0] == 1 else {}


def mi_jobs(creds=SHORT + LONGC):
    for i, c in enumerate(creds):
        yield job("h_mi", i % 4, 2, c, [(1, 5, 1)], **is_long(c))
    s, l = (0, 6, 0, 0, 0), (1, 4, 3, 5, 0)
    yield job("h_mi", 0, 2, s, [])
    yield job("h_mi", 1, 2 + 16, s, [(0, 8, 0), (UNK, 3, 0)])
    yield job("h_mi", 2, 2 + 32, s, [(7, 20, 0)])
    yield job("h_mi", 3, 2 + 16 + 32, s, [(UNK, 6, 0), (3, 7, 1)])
    yield job("h_mi", 0, 2 + 64, s, [(9, 3, 1)])
    yield job("h_mi", 0, 2 + 64, l, [(9, 3, 1)], fmt="real")
    yield job("h_mi", 1, 2 + 16 + 32, l, [(UNK, 6, 0), (5, 7, 1)], fmt="real")
    yield job("h_mi", 1, 2, (1, 6, 4, 6, 2), [(6, 4, 2)], fmt="real")
    yield job("h_mi", 0, 0, s, [(15, 100, 0)])
    yield job("h_mi", 1, 2, s, [(2, 20, 1)])
    yield job("h_mi", 2, 2 + 32, s, [(2, 20, 1), (UNK, 1, 0), (2, 20, 1)])
    yield job("h_mi", 0, 2, s, [(21, 4, 0), (2, 20, 1), (2, 20, 1), (2, 20, 1)])
    yield job("h_mi", 0, 0, s, [(15, 200, 9), (9, 127, 1)])
    yield job("h_mi", 0, 0, s, [(UNK, 300, 9), (21, 4, 0), (22, 0, 0), (24, 8, 0)])


ANYC_CRED = [(0, 10, 0, 0, 11), (0, 5, 0, 0, 11), (1, 10, 10, 5, 11), (1, 5, 5, 10, 11), (1, 6, 0, 10, 11)]


def mi_anychar():
    for i, c in enumerate(ANYC_CRED):
        yield job("h_mi", i % 4, 2, c, [(9, 5, 11)], **is_long(c))


def create_anychar():
    for i, c in enumerate(ANYC_CRED):
        yield job("h_create", i % 4, 3, c, [(1, 10, 11)], **is_long(c))


def create_jobs(creds=SHORT + LONGC):
    for i, c in enumerate(creds):
        yield job("h_create", i % 4, 3, c, [(1, 5, 1)], **is_long(c))
    s, l = (0, 6, 0, 0, 0), (1, 4, 3, 5, 0)
    for f in (1, 2, 3, 7, 6):
        yield job("h_create", f % 4, f, s, [(7, 8, 0), (9, 5, 1)])
    yield job("h_create", 0, 3, s, [])
    yield job("h_create", 1, 7, l, [(14, 20, 0), (15, 7, 0)], fmt="real")
    yield job("h_create", 2, 3, s, [(15, 260, 0)])
    yield job("h_create", 3, 3, (1, 6, 6, 6, 3), [(3, 3, 1)], fmt="real")
    yield job("h_create", 2, 3, s, [(t, 8, 1) for t in (0, 5, 7, 10, 12, 13, 20, 21, 25, 27, 30)])


def chunk_dec(modes=(0, 1, 3, 4, 5)):
    ms = [MIXES[0], MIXES[1], [(9, 2, 0)], BROKEN[0], [], [(4, 6, 0), (UNK, 5, 0)], [(3, 7, 1), (15, 6, 0)], [(24, 8, 0), (22, 0, 0), (17, 1, 0)], [(UNK, 2, 0), (11, 4, 0)]]
    for i, m in enumerate(ms):
        for mo in modes:
            yield job("h_chunk_dec", (i + mo) % 4, 2, mo, m)


def chunk_dec2():
    for i, m in enumerate([[(9, 2, 1)], [(UNK, 3, 0)], [(22, 0, 0), (17, 1, 0)], [(7, 8, 0)]]):
        yield job("h_chunk_dec", i, 2, 2, m)


def chunk_each(modes=(0, 1), types=ALL):
    """every attribute type, split everywhere"""
    for t in types:
        for l in ([3] if t == UNK else LEN_V[kind(t)][-1:]):
            for mo in modes:
                yield job("h_chunk_dec", t % 4, 2, mo, [(t, l, 1)])


def trunc_jobs():
    for i, m in enumerate([MIXES[0], MIXES[1], [(9, 2, 1)], [], BROKEN[0], [(UNK, 5, 0), (4, 4, 0)], [(15, 1, 0)], [(3, 5, 1), (22, 0, 0)]]):
        yield job("h_trunc", i % 4, 2, m)


def chunk_long(modes=(0, 4, 1, 3)):
    """messages of more than 256 bytes in two pieces, cut anywhere"""
    ms = [[(UNK, 251, 9), (9, 3, 1)], [(15, 260, 9), (7, 8, 1)], [(1, 130, 5), (UNK, 128, 9)], [(21, 4, 1)] * 33]
    for i, m in enumerate(ms):
        yield job("h_chunk_dec", i % 4, 2, modes[i % len(modes)], m)


def chunk_enc_long():
    for i, m in enumerate([[(15, 251, 9), (9, 3, 1)], [(29, 260, 9), (7, 8, 1)], [(1, 130, 5), (15, 128, 9)], [(21, 4, 1)] * 33]):
        yield job("h_chunk_enc", i % 4, (0, 1, 3, 0)[i], m)


def chunk_enc(modes=(0, 1, 3), each=True):
    ms = [ENC_MIXES[0], [], [(15, 5, 0), (4, 4, 0), (22, 0, 0)], ENC_MIXES[2], [(13, 4, 0), (24, 8, 0), (17, 1, 0), (25, 4, 0)], [(16, 20, 0), (31, 8, 0)]]
    for i, m in enumerate(ms):
        for mo in modes:
            yield job("h_chunk_enc", (i + mo) % 4, mo, m)
    if each:
        for t in range(32):
            if t not in (2, 11):
                yield job("h_chunk_enc", t % 4, 1, [(t, ENC_LEN[KINDS[t]][-1], 0)])


def chunk_enc2():
    for i, m in enumerate([[(9, 2, 1)], [(15, 3, 0), (22, 0, 0)], [(7, 8, 0)]]):
        yield job("h_chunk_enc", i, 2, m)


def reuse_dec(wide=False):
    firsts = [[(1, 5, 1)], BROKEN[0], [], [(UNK, 3, 0), (11, 4, 0)], [(4, 4, 0), (15, 3, 0)]]
    seconds = [[(9, 3, 1)], [(0, 7, 0), (21, 4, 0)], [(UNK, 5, 0), (15, 6, 0)]]
    i = 0
    for k in range(6):
        for a in firsts:
            for b in seconds if wide else [seconds[(i + k) % 3]]:
                i += 1
                yield job("h_reuse_dec", i % 4, 2, k, a, (i + 1) % 4, 2, b)


CTOR = [(1, 0, 0), (1, 5, 0), (1, 512, 0), (1, 513, 0), (1, 512, 2), (1, 514, 2), (1, 511, 3), (1, 520, 4),
        (3, 0, 0), (3, 5, 0), (3, 9, 3),
        (12, 0, 0), (13, 0, 0), (15, 0, 0), (15, 255, 0), (15, 256, 0), (15, 65535, 0), (15, 65536, 0), (15, 65537, 0), (15, 131072, 0),
        (29, 0, 0), (29, 256, 0), (29, 65535, 0), (29, 65536, 0), (29, 65537, 0), (29, 131072, 0), (40, 0, 0)]
for _t in (5, 6, 9, 41):
    CTOR += [(_t, 0, 0), (_t, 3, 0), (_t, 127, 0), (_t, 128, 0), (_t, 129, 0), (_t, 254, 2), (_t, 256, 2), (_t, 381, 3), (_t, 384, 3), (_t, 508, 4), (_t, 512, 4)]


# a few characters arbitrary in an otherwise plain text: what a rule about single characters changes
ANYC = [(5, 11), (10, 11), (15, 11), (12, 10)]
CTOR2 = [(t, l, m) for t in (1, 3, 5, 6, 9, 41) for l, m in ANYC]
CTOR2 += [(t, l, 10) for t in (5, 6, 9, 41) for l in (127, 128, 129)] + [(t, l, 11) for t in (5, 6, 9, 41) for l in (131, 133, 135)]
CTOR2 += [(1, 512, 10), (1, 513, 10), (1, 512, 11), (1, 513, 11)]


def anychar(f="h_dec", types=(1, 3, 5, 6, 9)):
    for t in types:
        for l, m in ANYC:
            yield job(f, l % 4, *([0] if f == "h_dec" else []), [(t, l + (4 if t == 3 and f == "h_dec" else 0), m)])


def ctor(types=None):
    for c in CTOR2 + CTOR:
        if types is None or c[0] in types:
            yield job("h_ctor", c)


def dec_limits():
    """received values at the limits the constructors document"""
    for x in LONG_TEXT:
        yield job("h_dec", x[1] % 4, 0, [x])
    for t, l in ((12, 4), (3, 4), (3, 6), (13, 4), (15, 256), (29, 256)):
        yield job("h_dec", t % 4, 2, [(t, l, 1)])


BIG = [(1, 100), (1, 65508), (1, 65512), (1, 65520), (1, 65521), (1, 65524), (1, 65528), (1, 65529), (1, 65531), (1, 65532), (1, 65533), (1, 65535), (1, 65536), (1, 65540), (1, 131076),
       (2, 65507, 1), (2, 65515, 0), (2, 65520, 4), (2, 65520, 5), (2, 32760, 32764), (2, 32764, 32764), (2, 40000, 40000), (3, 65504, 0, 16), (3, 65504, 12, 8)]


def big():
    for b in BIG:
        yield job("h_big", b)


# first attribute's length per job: messages of every size around powers of two and of the hash's block
MAC_LEN = list(range(0, 20)) + list(range(222, 264)) + list(range(484, 520)) + [1000, 1024, 4092, 4096, 32740, 32768]


def mac_len(lens=MAC_LEN, afters=(0, 5)):
    for i, l in enumerate(lens):
        c = i % 5
        yield job("h_mac_len", l, 1, afters[i % len(afters)], c, **({"fmt": "real"} if c > 1 else {}))


BIGMAC = [(65516, 0, 0), (65520, 0, 0), (65500, 1, 0), (65504, 1, 0), (65496, 1, 4), (100, 1, 65000), (100, 0, 65300), (65400, 0, 100), (65512, 0, 0)]


def bigmac(x=BIGMAC):
    for b in x:
        yield job("h_big_mac", b)


def dispatch(lens=(0, 1, 2, 4), long_lens=(8, 20), sets=(0, 1, 2, 3, 4, 5)):
    for s in sets:
        for l in lens:
            yield job("h_dispatch", s, l, 0)
        for l in long_lens:
            yield job("h_dispatch", s, l, 1)


def single(lens=(0, 1, 4, 5, 8, 20)):
    for l in lens:
        yield job("h_single", l)


def net(steps=(1, 3, 8, 20), lens=(0, 1, 3, 4, 7, 8, 9, 19, 20, 21, 24)):
    for f in (0, 1):
        for s in steps:
            yield job("h_net", f, s)
    for l in lens:
        yield job("h_net_any", l)


def hooks(n=3):
    for c in range(4):
        for k in range(n + 1):
            yield job("h_after", c, k)
            yield job("h_before", c, k)


def busy():
    for c, n in ((0, 0), (1, 1), (2, 2), (3, 3)):
        yield job("h_busy", c, n)


def drops(lens=(0, 1, 3, 4, 5)):
    for l in lens:
        yield job("h_drop", l % 4, l)


def setenc(lens=(0, 1, 3, 8)):
    for l in lens:
        yield job("h_set_enc", l)


def addrs(f):
    for t in (0, 7, 8, 10, 14, 16, 26, 28):
        for l in (8, 20):
            yield f(t, l)


FIXED = [job("h_header"), job("h_types"), job("h_tables")]
ATT_VALID = [(t, l) for t in range(32) for l in LEN_V[KINDS[t]]]
NAMES = ["MAPPED-ADDRESS", "USERNAME", "MESSAGE-INTEGRITY", "ERROR-CODE", "UNKNOWN-ATTRIBUTES", "REALM", "NONCE", "XOR-MAPPED-ADDRESS",
         "XOR-MAPPED-ADDRESS (0x8020)", "SOFTWARE", "ALTERNATE-SERVER", "FINGERPRINT", "CHANNEL-NUMBER", "LIFETIME", "XOR-PEER-ADDRESS", "DATA",
         "XOR-RELAYED-ADDRESS", "EVEN-PORT", "REQUESTED-TRANSPORT", "DONT-FRAGMENT", "RESERVATION-TOKEN", "PRIORITY", "USE-CANDIDATE",
         "ICE-CONTROLLED", "ICE-CONTROLLING", "CHANGE-REQUEST", "RESPONSE-ORIGIN", "RESPONSE-PORT", "OTHER-ADDRESS", "MOBILITY-TICKET",
         "REQUESTED-ADDRESS-FAMILY", "ADDITIONAL-ADDRESS-FAMILY"]


# ---------------------------------------------------------------- wide pseudo-random shapes
def rnd_text(r, limit):
    """(length, text mode) of a valid text below `limit` bytes/characters"""
    x = r.random()
    if x < 0.5:
        return r.randrange(0, 13), r.choice([1, 1, 2, 3, 4, 5, 7])
    m = r.choice([1, 2, 3, 4, 5, 7])
    if limit == 513:
        n = r.choice([r.randrange(13, 513), 512, 511, 510, 509, 256, 255, 257, 128, 127, 129])
    else:
        n = r.randrange(13, 127 * {1: 1, 2: 2, 3: 3, 4: 4, 5: 2, 7: 2}[m] + 1)
    if 2 <= m <= 4:
        n -= n % m
    if m == 1 and n > 60:
        m = 5 if limit == 513 else 1
    return n, m


PLAIN = [t for t in ALL if kind(t) in ("User", "Text", "Bytes", None, "U32", "U64", "Empty", "Even", "Unks", "ReqT", "RPort", "Chg", "Mi")]  # one path each


def rnd_item(r, enc=False, small=False, types=ALL):
    t = r.choice([x for x in types if not (enc == 1 and x in (2, 11) or enc and x == UNK)])
    k = kind(t)
    if k in ("User", "Text", "ErrC"):
        n, m = rnd_text(r, 513 if k == "User" else 128 if k == "Text" else 128)
        if small:
            n, m = r.randrange(0, 9), 1
        return (t, n + (4 if k == "ErrC" and not enc else 0), m)
    if k in ("Bytes", None):
        if small or r.random() < 0.6:
            return (t, r.randrange(0, 13), 1)
        return (t, r.choice([r.randrange(13, 200), r.randrange(200, 1500), r.choice([252, 253, 254, 255, 256, 257, 260, 511, 512, 513, 1023, 1024, 1025, 4096])]), 9)
    if k == "Unks":
        return (t, 2 * r.choice([0, 1, 2, 3, 4, 5, 8, 20]) if not small else 2 * r.randrange(4), 0)
    return (t, r.choice((ENC_LEN if enc else LEN_V)[k]), 1)


def rnd_list(r, enc=False, small=False, plain=False):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 7, 9]) if not small else r.choice([1, 1, 2, 2, 3])
    if r.random() < 0.04 + 0.06 * small:
        return []
    if not small and r.random() < 0.04:
        n, plain = r.randrange(17, 60), True
    items = [rnd_item(r, enc=enc, small=small, types=PLAIN if plain or i > 3 else ALL) for i in range(n)]
    if enc:
        return dup(r, items)
    # at most one FINGERPRINT, arbitrary only behind little
    fp = [i for i in range(n) if items[i][0] == 11]
    for i in fp[1:]:
        items[i] = (21, 4, 1)
    if fp and fp[0] < 3 and all(x[1] < 60 for x in items[:fp[0]]):
        items[fp[0]] = (11, 4, 0)
    return dup(r, items)


def dup(r, items):
    if len(items) > 2 and r.random() < 0.3:
        # duplicates of one type, apart from each other
        t = r.choice(items)
        items.insert(r.randrange(len(items)), t)
    return items


def rnd_break(r, items):
    """one attribute gets a length its type does not allow, or arbitrary text bytes"""
    items = list(items) or [(9, 5, 1)]
    i = r.randrange(len(items))
    t = items[i][0]
    k = kind(t)
    if k in ("User", "Text"):
        items[i] = (t, r.choice([r.randrange(5, 40), r.randrange(40, 140), 513, 514, 600, 1000]), r.choice([6, 8]))
    elif k == "ErrC":
        items[i] = (t, r.choice([0, 1, 2, 3, r.randrange(8, 40), r.randrange(40, 800)]), r.choice([6, 8]))
    elif k in (None, "Bytes"):
        return rnd_break(r, items + [(0, 8, 0)]) if all(kind(x[0]) in (None, "Bytes") for x in items) else rnd_break(r, items)
    else:
        items[i] = (t, r.choice([r.randrange(0, 26), r.randrange(0, 26), r.randrange(26, 100), 256 + (LEN_V[k][0]), r.randrange(100, 1000)]), 0)
    return items


def cap(m, n):
    """at most n bytes"""
    if not m:
        return m
    while sum(x[1] + 7 for x in m) > n and len(m) > 1:
        m = sorted(m, key=lambda x: x[1])[:-1]
    return m if sum(x[1] + 7 for x in m) <= n else [(9, 6, 1)]


def wide(seed, n, func="h_dec", broken=0.0):
    r = random.Random("%s/%d/%d/%s" % (func, seed, n, broken))
    for _ in range(n):
        c = r.randrange(4)
        if func == "h_dec":
            m = rnd_list(r)
            if r.random() < broken:
                m = rnd_break(r, m)
            yield job("h_dec", c, 2, m)
        elif func == "h_enc":
            yield job("h_enc", c, cap(rnd_list(r, enc=2), 1200))
        elif func == "h_extend":
            yield job("h_extend", c, 2 + r.choice([0, 0, 16, 32, 48]), cap([x for x in rnd_list(r, plain=True) if x[0] != 11], 500), rnd_list(r, enc=True, small=True))
        elif func == "h_chunk_dec":
            m = rnd_list(r, small=True)
            if r.random() < broken:
                m = [x if x[1] < 60 else (22, 3, 0) for x in rnd_break(r, m)]
            yield job("h_chunk_dec", c, 2, r.choice([0, 1, 3, 4, 5]), m)
        elif func == "h_chunk_enc":
            yield job("h_chunk_enc", c, r.choice([0, 1, 3]), rnd_list(r, enc=True, small=True))
        elif func == "h_reuse_dec":
            k = r.choice([0, 0, 1, 2, 3, 4, 5])
            a, b = rnd_list(r, small=True, plain=k > 2), rnd_list(r, small=True, plain=True)
            if r.random() < 0.6 and k < 3:
                a = rnd_break(r, a)
            yield job("h_reuse_dec", c, 2, k, a, r.randrange(4), 2, b)
        elif func == "h_stream":
            k = r.choice([1, 2, 2, 3, 3, 4, 5])
            ms = []
            for _ in range(k):
                m = rnd_list(r, small=k > 1, plain=True)
                if r.random() < 0.25:
                    m.insert(r.randrange(len(m) + 1), r.choice([(0, 7, 0), (13, 5, 0), (22, 3, 1), (24, 7, 0), (4, 3, 0), (2, 19, 0), (3, 2, 0), (25, 8, 0)]))
                ms += [r.randrange(4), 2, len(m)] + [x for y in m for x in y]
            yield job("h_stream", r.choice([0, 1, 2, 3, 4, 5, 7, 13, 16, 20, 24, 64, 1000]) if k > 1 else r.choice([1, 2, 3, 5, 6, 7, 11, 19, 21, 33, 100, 256, 500]), k, ms)
        elif func == "h_stream_enc":
            k = r.choice([1, 2, 3, 4])
            ms = []
            busy_at = r.randrange(k) if r.random() < 0.4 and k > 1 else None
            for i in range(k):
                m = rnd_list(r, enc=True, small=k > 1)
                ms += [2 if i == busy_at else r.choice([0, 0, 1]) if k > 1 else 0, r.randrange(4), len(m)] + [x for y in m for x in y]
            yield job("h_stream_enc", r.choice([0, 1, 2, 3, 5, 7, 16, 24, 100]), k, ms)
        elif func == "h_create":
            cred = (0, r.choice([r.randrange(0, 70), r.randrange(0, 140), 63, 64, 65]), 0, 0, r.choice([0, 5, 7]))
            if r.random() < 0.35:
                cred = (1, r.randrange(0, 20), r.randrange(0, 20), r.randrange(0, 20), r.choice([0, 5, 7]))
            yield job("h_create", c, r.choice([1, 2, 3, 3, 7]), cred, cap(rnd_list(r, enc=True), 500), **is_long(cred))
        elif func == "h_mi":
            cred = (0, r.choice([r.randrange(0, 70), r.randrange(0, 140), 63, 64, 65]), 0, 0, r.choice([0, 5, 7]))
            if r.random() < 0.35:
                cred = (1, r.randrange(0, 20), r.randrange(0, 20), r.randrange(0, 20), r.choice([0, 5, 7]))
            m = cap([x for x in rnd_list(r) if x[0] not in (2, 11)], 500)
            yield job("h_mi", c, 2 + r.choice([0, 16, 32, 48, 64]), cred, m, **is_long(cred))
        elif func == "h_fp":
            m = cap([x for x in rnd_list(r) if x[0] != 11], 500)
            yield job("h_dec", c, 2, m + [(11, 4, r.choice([0, 0, 1]))] + ([rnd_item(r)] if r.random() < 0.3 else []))
        elif func == "h_coder":
            t, l, m = rnd_item(r)
            if r.random() < 0.3:
                t, l, m = rnd_break(r, [(t, l, m)])[0]
            k = kind(t)
            cut = r.choice([0, 1, 2, 3, 4, 5, 7, 16, 50, 128])
            if l > 60 and cut < 4:
                cut = r.choice([0, 9, 33])
            _, l2, _ = rnd_item(r, small=True, types=[t])
            yield job("h_coder", t if t == UNK or r.random() < 0.7 else 200 + t, l, m, cut, l2)
        elif func == "h_trunc":
            yield job("h_trunc", c, 2, rnd_list(r, small=True))


# ---------------------------------------------------------------- coders of single attributes
CODER_LEN = {"User": [0, 1, 4, 9], "Text": [0, 1, 4, 9], "ErrC": [0, 3, 4, 7], "Unks": [0, 1, 2, 4, 5, 8], "Bytes": [0, 1, 5, 16], None: [0, 1, 5, 16]}


def coders(cuts=(0, 1, 2, 3)):
    for t in ALL:
        k = kind(t)
        lens = CODER_LEN.get(k) or sorted(set(LEN_Q[k]))
        for l in lens:
            for c in cuts:
                if c == 2 and k in ("User", "Text", "ErrC"):
                    yield job("h_coder", t, l, 1, 2, LEN_V[k][-1])
                elif c != 3 or l in LEN_V[k]:
                    yield job("h_coder", t, l, 0 if l < 5 and c != 1 else 1, c, LEN_V[k][0])
        if t != UNK:
            for l in LEN_V[k]:
                yield job("h_coder", 200 + t, l, 1, (t + l) % 4, LEN_V[k][-1])
    for t, l, m in LONG_TEXT + LONG_TEXT2:
        yield job("h_coder", t, l, m, (0, 7, 64)[l % 3], 5)
    for t in (15, 29, UNK):
        for l in (127, 128, 255, 256, 257, 1024):
            yield job("h_coder", t, l, 9, (0, 5, 100)[l % 3], 3)


def equals():
    for t in range(32):
        if t in (2, 11):
            continue
        k = KINDS[t]
        ls = ENC_LEN[k]
        for a in ls[:3]:
            for b in sorted({a, ls[-1]}):
                yield job("h_eq", t, a, b, 0)
    yield job("h_eq", 13, 4, 4, 1)
    for t in (1, 3, 5, 6, 9):
        for m in (2, 3, 4):
            yield job("h_eq", t, 2 * m, 2 * m, m)


def extends():
    added = [[(9, 3, 1)], [(7, 20, 0), (1, 4, 1)], [(3, 3, 1)], [], [(15, 5, 0)], [(16, 8, 0), (22, 0, 0)]]
    for i, m in enumerate(MIXES):
        if any(x[0] == 11 for x in m):
            m = [x for x in m if x[0] != 11]
        for f in (0, 16, 32, 48):
            yield job("h_extend", i % 4, 2 + f, m, added[(i + f // 16) % 6])
    for t in ALL:
        if t != 11:
            yield job("h_extend", t % 4, 2 + (0, 16, 32, 48)[t % 4], [(t, LEN_V[kind(t)][-1], 1)], added[t % 6])
    for f in (2, 2 + 16, 2 + 32):
        yield job("h_extend", 1, f, [(9, 5, 1), (11, 4, 1)], [(9, 3, 1)])
        yield job("h_extend", 2, f, [], [(9, 3, 1)])
        yield job("h_extend", 3, f, [(UNK, 255, 9)], [(15, 260, 9)])
