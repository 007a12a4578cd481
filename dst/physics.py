"""Independent evaluations of the published formulas, one instant at a time, in plain arithmetic.

Longman (1959) is coded from the paper's degrees and arc seconds; a second,
coarse ephemeris (Astronomical Almanac low-precision Sun and Moon) guards
against an error common to every transcription of the paper.
"""
import math

WE = 7.292115e-5
A, F = 6378137.0, 1 / 298.257223563
B = A * (1 - F)
E2 = 1 - B * B / A / A


def _sec(rev, deg, m, s):
    return math.radians(rev * 360 + deg + m / 60.0 + s / 3600.0)


def longman(lon, lat, us, alt=0.0):
    """(total, moon, sun) in mGal, up positive; lon east, us since 1970 UTC."""
    days = us / 86400e6 + 25567.5               # from 1899-12-31 12:00
    T = days / 36525
    hour = (us % 86400000000) / 3600e6
    s = _sec(0, 270, 26, 14.72) + _sec(1336, 0, 0, 1108411.20) * T + _sec(0, 0, 0, 9.09) * T ** 2 + _sec(0, 0, 0, .0068) * T ** 3
    p = _sec(0, 334, 19, 40.87) + _sec(11, 0, 0, 392515.94) * T - _sec(0, 0, 0, 37.24) * T ** 2 - _sec(0, 0, 0, .045) * T ** 3
    h = _sec(0, 279, 41, 48.04) + _sec(0, 0, 0, 129602768.13) * T + _sec(0, 0, 0, 1.089) * T ** 2
    N = _sec(0, 259, 10, 57.12) - _sec(5, 0, 0, 482912.63) * T + _sec(0, 0, 0, 7.58) * T ** 2 + _sec(0, 0, 0, .008) * T ** 3
    p1 = _sec(0, 281, 13, 15.0) + _sec(0, 0, 0, 6189.03) * T + _sec(0, 0, 0, 1.63) * T ** 2 + _sec(0, 0, 0, .012) * T ** 3
    e1 = .01675104 - .0000418 * T - .000000126 * T ** 2
    e, m, w, i = .05490, .074804, math.radians(23.452), math.radians(5.145)
    c, c1, a = 3.84402e8, 1.495e11, 6.378270e6   # metres
    cI = math.cos(w) * math.cos(i) - math.sin(w) * math.sin(i) * math.cos(N)
    I = math.acos(cI)
    nu = math.asin(math.sin(i) * math.sin(N) / math.sin(I))
    t = math.radians(15 * (hour - 12) + lon)
    ca = math.cos(N) * math.cos(nu) + math.sin(N) * math.sin(nu) * math.cos(w)
    sa = math.sin(w) * math.sin(N) / math.sin(I)
    xi = N - math.atan2(sa, ca)
    sg = s - xi
    lm = (sg + 2 * e * math.sin(s - p) + 1.25 * e * e * math.sin(2 * (s - p)) + 3.75 * m * e * math.sin(s - 2 * h + p)
          + 1.375 * m * m * math.sin(2 * (s - h)))
    ls = h + 2 * e1 * math.sin(h - p1)
    ph = math.radians(lat)

    def zen(inc, l, x):
        # rotate the body's place in its orbit to the equator, then to the zenith
        bx, by, bz = math.cos(l), math.sin(l) * math.cos(inc), math.sin(l) * math.sin(inc)
        return math.sin(ph) * bz + math.cos(ph) * (bx * math.cos(x) + by * math.sin(x))
    ct = zen(I, lm, t + h - nu)
    cs = zen(w, ls, t + h)
    r = a / math.sqrt(1 + .006738 * math.sin(ph) ** 2) + alt
    ap = 1 / (c * (1 - e * e))
    inv = (1 / c + ap * e * math.cos(s - p) + ap * e * e * math.cos(2 * (s - p)) + 1.875 * ap * m * e * math.cos(s - 2 * h + p)
           + ap * m * m * math.cos(2 * (s - h)))
    D = 1 / (1 / c1 + e1 * math.cos(h - p1) / (c1 * (1 - e1 * e1)))
    G, M, S = 6.673e-11, 7.3537e22, 1.993e30
    gm = G * M * r * inv ** 3 * (3 * ct * ct - 1) + 1.5 * G * M * r * r * inv ** 4 * (5 * ct ** 3 - 3 * ct)
    gs = G * S * r / D ** 3 * (3 * cs * cs - 1)
    f = (1 + .612 - 1.5 * .303) * 1e5
    return (gm + gs) * f, gm * f, gs * f


def almanac(lon, lat, us):
    """The same quantity from the Almanac's low-precision Sun and Moon (good to about 0.004 mGal)."""
    d = us / 86400e6 - 10957.5
    T = d / 36525
    R = math.radians
    sn, cn = (lambda x: math.sin(R(x))), (lambda x: math.cos(R(x)))
    lam = (218.32 + 481267.881 * T + 6.29 * sn(135.0 + 477198.87 * T) - 1.27 * sn(259.3 - 413335.36 * T) + .66 * sn(235.7 + 890534.22 * T)
           + .21 * sn(269.9 + 954397.74 * T) - .19 * sn(357.5 + 35999.05 * T) - .11 * sn(186.5 + 966404.03 * T))
    bet = 5.13 * sn(93.3 + 483202.02 * T) + .28 * sn(228.2 + 960400.89 * T) - .28 * sn(318.3 + 6003.15 * T) - .17 * sn(217.6 - 407332.21 * T)
    par = (.9508 + .0518 * cn(135.0 + 477198.87 * T) + .0095 * cn(259.3 - 413335.36 * T) + .0078 * cn(235.7 + 890534.22 * T)
           + .0028 * cn(269.9 + 954397.74 * T))
    dm = 6378140.0 / sn(par)
    g, q = 357.529 + .98560028 * d, 280.459 + .98564736 * d
    ls = q + 1.915 * sn(g) + .020 * sn(2 * g)
    ds = (1.00014 - .01671 * cn(g) - .00014 * cn(2 * g)) * 1.495978707e11
    ep = 23.439 - 3.6e-7 * d
    th = 280.46061837 + 360.98564736629 * d + lon

    def cosz(l, b):
        x, y, z = cn(b) * cn(l), cn(b) * sn(l), sn(b)
        y, z = y * cn(ep) - z * sn(ep), y * sn(ep) + z * cn(ep)
        return z * sn(lat) + cn(lat) * (x * cn(th) + y * sn(th))
    r = 6371000.0
    ct, cs = cosz(lam, bet), cosz(ls, 0)
    gm = 4.9048695e12 * r / dm ** 3 * (3 * ct * ct - 1) + 1.5 * 4.9048695e12 * r * r / dm ** 4 * (5 * ct ** 3 - 3 * ct)
    gs = 1.32712e20 * r / ds ** 3 * (3 * cs * cs - 1)
    return (gm + gs) * 1.1575 * 1e5


def normal(lat):
    """Somigliana from the equatorial and polar gravity of WGS84, mGal."""
    s = math.sin(math.radians(lat)) ** 2
    return (A * 978032.53359 * (1 - s) + B * 983218.49378 * s) / math.sqrt(A * A * (1 - s) + B * B * s)


def free_air(lat, h, water=False):
    s = math.sin(math.radians(lat)) ** 2
    return -((.22242 if water else .3087691) - .0004398 * s) * h + 7.2125e-8 * h * h


def radii(lat, a=A, b=B):
    e2 = 1 - b * b / a / a
    w = 1 - e2 * math.sin(math.radians(lat)) ** 2
    return a * (1 - e2) / w ** 1.5, a / math.sqrt(w)       # meridian, prime vertical


def eotvos(lat, h, dlat, dlon, ddh, ell=(A, B)):
    """Exact downward acceleration on the moving vessel less that at rest (rates in rad/s, m/s2), mGal."""
    M, N = radii(lat, *ell)
    c2 = math.cos(math.radians(lat)) ** 2
    return (-ddh + (M + h) * dlat ** 2 + (N + h) * c2 * (dlon ** 2 + 2 * WE * dlon)) * 1e5
