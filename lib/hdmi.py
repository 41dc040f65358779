"""DVI/HDMI transmitter model: periods -> three channels of 10-bit words."""
import numpy as np

from lib import tmds

VIDEO_PREAMBLE = 0b0001      # CTL0 = 1
DATA_PREAMBLE = 0b0101       # CTL0 = CTL2 = 1


class Stream:
    """rows: w0, w1, w2 (channels 0..2), de, r, g, b, hsync, vsync"""

    def __init__(self):
        self.rows = []

    def __len__(self):
        return len(self.rows)

    def control(self, hs, vs, n, ctl=0):
        row = (tmds.CTRL[hs | vs << 1], tmds.CTRL[ctl & 3], tmds.CTRL[ctl >> 2], 0, 0, 0, 0, hs, vs)
        self.rows += [row]*n
        return self

    def video(self, pixels, hs, vs, guard):
        if guard:
            self.rows += [tuple(tmds.VIDEO_GB) + (0, 0, 0, 0, hs, vs)]*2
        cnt = [0, 0, 0]
        for r, g, b in pixels:
            w = []
            for i, d in enumerate((b, g, r)):
                x, cnt[i] = tmds.step(cnt[i], int(d))
                w.append(x)
            self.rows.append((w[0], w[1], w[2], 1, int(r), int(g), int(b), hs, vs))
        return self

    def island(self, hs, vs, packets, g):
        """one data island: guard bands and packets of 32 words"""
        t = tmds.TERC4
        vh = hs | vs << 1
        gb = (t[12 | vh], tmds.DATA_GB, tmds.DATA_GB, 0, 0, 0, 0, hs, vs)
        self.rows += [gb]*2
        n = 32*packets
        a, b, c = g.integers(0, 4, n), g.integers(0, 16, n), g.integers(0, 16, n)
        for k in range(n):
            self.rows.append((t[int(a[k]) << 2 & 12 | vh], t[int(b[k])], t[int(c[k])], 0, 0, 0, 0, hs, vs))
        self.rows += [gb]*2
        return self

    def array(self):
        return np.array(self.rows, dtype=np.int64).reshape(-1, 9)


# pixels whose first words look like guard bands, control or data island tokens
SPECIAL = (0xab, 0x55, 0xaa, 0x54, 0x00, 0xff)
