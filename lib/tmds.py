"""TMDS (DVI 1.0) reference: written from the flow charts of the standard."""

CTRL = [0b1101010100, 0b0010101011, 0b0101010100, 0b1010101011]

_TERC4 = ["1010011100", "1001100011", "1011100100", "1011100010", "0101110001", "0100011110", "0110001110", "0100111100",
          "1011001100", "0100111001", "0110011100", "1011000110", "1010001110", "1001110001", "0101100011", "1011000011"]
TERC4 = [int(x, 2) for x in _TERC4]
VIDEO_GB = [0b1011001100, 0b0100110011, 0b1011001100]
DATA_GB = 0b0100110011


def _qm(d):
    b = [d >> i & 1 for i in range(8)]
    n1 = sum(b)
    q = [b[0]]
    if n1 > 4 or (n1 == 4 and b[0] == 0):
        for i in range(1, 8):
            q.append(1 - (q[i - 1] ^ b[i]))
        q.append(0)
    else:
        for i in range(1, 8):
            q.append(q[i - 1] ^ b[i])
        q.append(1)
    return q


QM = []
for _d in range(256):
    _q = _qm(_d)
    _n1 = sum(_q[:8])
    QM.append((sum(x << i for i, x in enumerate(_q[:8])), _q[8], _n1, 8 - _n1))


def step(cnt, d):
    """(word, new disparity)"""
    q, q8, n1, n0 = QM[d]
    if cnt == 0 or n1 == n0:
        if q8:
            return (0 << 9) | (1 << 8) | q, cnt + n1 - n0
        return (1 << 9) | (q ^ 255), cnt + n0 - n1
    if (cnt > 0 and n1 > n0) or (cnt < 0 and n0 > n1):
        return (1 << 9) | (q8 << 8) | (q ^ 255), cnt + 2*q8 + n0 - n1
    return (q8 << 8) | q, cnt - 2*(1 - q8) + n1 - n0


def encode(seq):
    """seq of (d, c, de) -> words"""
    cnt = 0
    o = []
    for d, c, de in seq:
        if de:
            w, cnt = step(cnt, d)
        else:
            w, cnt = CTRL[c], 0
        o.append(w)
    return o


def decode(w):
    """(de, c or None, d)"""
    q = w & 255
    if w >> 9 & 1:
        q ^= 255
    d = q & 1
    for i in range(1, 8):
        x = (q >> i ^ q >> (i - 1)) & 1
        if not w >> 8 & 1:
            x ^= 1
        d |= x << i
    if w in CTRL:
        return 0, CTRL.index(w), d
    return 1, None, d


def valid_words(d):
    """the words an encoder can send for this byte"""
    r = set()
    for cnt in range(-10, 11):
        r.add(step(cnt, d)[0])
    return sorted(r)
