import numpy as np


class Satrec:
    @classmethod
    def twoline2rv(cls, a, b):
        s = cls()
        s.line1, s.line2 = a, b
        s.satnum_str = a[2:7]
        y, d = int(a[18:20]), float(a[20:32])
        y += 2000 if y < 57 else 1900
        import datetime
        s.jdsatepoch = (datetime.date(y, 1, 1) - datetime.date(2000, 1, 1)).days + 2451544.5 + int(d) - 1
        s.jdsatepochF = d - int(d)
        return s

    def sgp4(self, jd, fr):
        t = (jd - 2451544.5) + fr
        i = float(self.line2[8:16])
        return 0, (7000 + 0.001 * t, 10 * i + 0.002 * t, -300 - 0.003 * t), (1 + 1e-6 * t, 7 - 2e-6 * t, 0.01 * i)

    def sgp4_array(self, jd, fr):
        o = [self.sgp4(float(a), float(b)) for a, b in zip(jd, fr)]
        return np.array([x[0] for x in o]), np.array([x[1] for x in o]).reshape(-1, 3), np.array([x[2] for x in o]).reshape(-1, 3)
