"""Computed calendars: Chinese lunisolar, equinoxes, Hebrew, Islamic (tabular)
and Orthodox Easter.  Independent of the analysed package.

Moon and sun follow Meeus, Astronomical Algorithms, ch. 25, 27 and 49."""
import datetime as dtm
import functools
from math import sin, cos, radians, floor

D1 = dtm.timedelta(1)


def date_of_jd(jd, hours):
    """calendar date of a Julian day (UT) on a clock `hours` east of UT"""
    return dtm.date.fromordinal(int(floor(jd + hours / 24.0 + 0.5)) - 1721425)


def near_midnight(jd, hours, minutes):
    f = (jd + hours / 24.0 + 0.5) % 1.0
    return min(f, 1 - f) * 1440 < minutes


def jd_of_date(d):
    """Julian day at 0h UT"""
    return d.toordinal() + 1721424.5


def delta_t(year):
    """TT - UT in days"""
    t = year - 2000
    if year < 2005:
        s = 63.86 + 0.3345 * t - 0.060374 * t ** 2 + 0.0017275 * t ** 3
        if year < 1986:
            u = year - 1975
            s = 45.45 + 1.067 * u - u ** 2 / 260.0 - u ** 3 / 718.0
    else:
        s = 64.5 + 0.35 * (t - 5)
    return s / 86400.0


def new_moon(k):
    """JD (UT) of new moon number k (k=0 is January 6, 2000); k+.5 is full"""
    full = abs(k - floor(k) - 0.5) < 1e-6
    T = k / 1236.85
    jde = (2451550.09766 + 29.530588861 * k + 0.00015437 * T ** 2
           - 0.000000150 * T ** 3 + 0.00000000073 * T ** 4)
    E = 1 - 0.002516 * T - 0.0000074 * T ** 2
    M = radians(2.5534 + 29.10535670 * k - 0.0000014 * T ** 2)
    m = radians(201.5643 + 385.81693528 * k + 0.0107582 * T ** 2)
    F = radians(160.7108 + 390.67050284 * k - 0.0016118 * T ** 2)
    O = radians(124.7746 - 1.56375588 * k + 0.0020672 * T ** 2)
    if not full:
        c = (-0.40720 * sin(m) + 0.17241 * E * sin(M) + 0.01608 * sin(2 * m)
             + 0.01039 * sin(2 * F) + 0.00739 * E * sin(m - M)
             - 0.00514 * E * sin(m + M) + 0.00208 * E * E * sin(2 * M))
    else:
        c = (-0.40614 * sin(m) + 0.17302 * E * sin(M) + 0.01614 * sin(2 * m)
             + 0.01043 * sin(2 * F) + 0.00734 * E * sin(m - M)
             - 0.00515 * E * sin(m + M) + 0.00209 * E * E * sin(2 * M))
    c += (-0.00111 * sin(m - 2 * F) - 0.00057 * sin(m + 2 * F)
          + 0.00056 * E * sin(2 * m + M) - 0.00042 * sin(3 * m)
          + 0.00042 * E * sin(M + 2 * F) + 0.00038 * E * sin(M - 2 * F)
          - 0.00024 * E * sin(2 * m - M) - 0.00017 * sin(O)
          - 0.00007 * sin(m + 2 * M) + 0.00004 * sin(2 * m - 2 * F)
          + 0.00004 * sin(3 * M) + 0.00003 * sin(m + M - 2 * F)
          + 0.00003 * sin(2 * m + 2 * F) - 0.00003 * sin(m + M + 2 * F)
          + 0.00003 * sin(m - M + 2 * F) - 0.00002 * sin(m - M - 2 * F)
          - 0.00002 * sin(3 * m + M) + 0.00002 * sin(4 * m))
    A = ((299.77, 0.107408, 325), (251.88, 0.016321, 165),
         (251.83, 26.651886, 164), (349.42, 36.412478, 126),
         (84.66, 18.206239, 110), (141.74, 53.303771, 62),
         (207.14, 2.453732, 60), (154.84, 7.306860, 56),
         (34.52, 27.261239, 47), (207.19, 0.121824, 42),
         (291.34, 1.844379, 40), (161.72, 24.198154, 37),
         (239.56, 25.513099, 35), (331.55, 3.592518, 23))
    for i, (a, b, w) in enumerate(A):
        x = a + b * k - (0.009173 * T ** 2 if i == 0 else 0)
        c += w * 1e-6 * sin(radians(x))
    jde += c
    return jde - delta_t(2000 + k / 12.3685)


def sun(jd):
    """apparent longitude of the sun in degrees at JD (UT)"""
    jde = jd + delta_t(2000 + (jd - 2451545) / 365.25)
    T = (jde - 2451545.0) / 36525
    L = 280.46646 + 36000.76983 * T + 0.0003032 * T * T
    M = radians(357.52911 + 35999.05029 * T - 0.0001537 * T * T)
    C = ((1.914602 - 0.004817 * T - 0.000014 * T * T) * sin(M)
         + (0.019993 - 0.000101 * T) * sin(2 * M) + 0.000289 * sin(3 * M))
    om = radians(125.04 - 1934.136 * T)
    return (L + C - 0.00569 - 0.00478 * sin(om)) % 360


def solar_term(year, deg):
    """JD (UT) at which the sun reaches deg in a year (0 = March equinox)"""
    jd = jd_of_date(dtm.date(year, 1, 1)) + ((deg - 280) % 360) / 360 * 365.25
    for _ in range(20):
        d = (deg - sun(jd) + 180) % 360 - 180
        jd += d * 365.2422 / 360
    return jd


def equinox(year, autumn):
    """JD (UT) of an equinox, good to a minute (Meeus ch. 27)"""
    Y = (year - 2000) / 1000.0
    if not autumn:
        j = (2451623.80984 + 365242.37404 * Y + 0.05169 * Y ** 2
             - 0.00411 * Y ** 3 - 0.00057 * Y ** 4)
    else:
        j = (2451810.21715 + 365242.01767 * Y - 0.11575 * Y ** 2
             + 0.00337 * Y ** 3 + 0.00078 * Y ** 4)
    T = (j - 2451545.0) / 36525
    W = radians(35999.373 * T - 2.47)
    dl = 1 + 0.0334 * cos(W) + 0.0007 * cos(2 * W)
    terms = ((485, 324.96, 1934.136), (203, 337.23, 32964.467),
             (199, 342.08, 20.186), (182, 27.85, 445267.112),
             (156, 73.14, 45036.886), (136, 171.52, 22518.443),
             (77, 222.54, 65928.934), (74, 296.72, 3034.906),
             (70, 243.58, 9037.513), (58, 119.81, 33718.147),
             (52, 297.17, 150.678), (50, 21.02, 2281.226),
             (45, 247.54, 29929.562), (44, 325.15, 31555.956),
             (29, 60.93, 4443.417), (18, 155.12, 67555.328),
             (17, 288.79, 4562.452), (16, 198.04, 62894.029),
             (14, 199.76, 31436.921), (12, 95.39, 14577.848),
             (12, 287.11, 31931.756), (12, 320.81, 34777.259),
             (9, 227.73, 1222.114), (8, 15.45, 16859.074))
    S = sum(a * cos(radians(b + c * T)) for a, b, c in terms)
    return j + 0.00001 * S / dl - delta_t(year)


def equinox_date(year, autumn, hours):
    return date_of_jd(equinox(year, autumn), hours)


# ------------------------------------------------------------------ Chinese

CHINA = 8


def moons(lo, hi):
    """dates (China) of new moons in [lo, hi]"""
    k = int((lo.year + (lo.month - 1) / 12.0 - 2000) * 12.3685) - 2
    out = []
    while True:
        d = date_of_jd(new_moon(k), CHINA)
        if d > hi:
            return out
        if d >= lo:
            out.append(d)
        k += 1


@functools.lru_cache(None)
def sui(year):
    """months from the one holding the solstice of year-1 to the next:
    [(first date, number, leap)]"""
    s0 = date_of_jd(solar_term(year - 1, 270), CHINA)
    s1 = date_of_jd(solar_term(year, 270), CHINA)
    ms = moons(s0 - 35 * D1, s1 + 35 * D1)
    a = max(i for i, d in enumerate(ms) if d <= s0)
    b = max(i for i, d in enumerate(ms) if d <= s1)
    months = ms[a:b + 1]
    leap_sui = b - a == 13
    terms = [date_of_jd(solar_term(y, d), CHINA) for y in (year - 1, year)
             for d in range(0, 360, 30)]
    out, num, used = [], 11, False
    for i in range(b - a):
        x, y = months[i], months[i + 1]
        leap = False
        if i:
            if leap_sui and not used and \
                    not any(x <= t < y for t in terms):
                leap = used = True
            else:
                num = num % 12 + 1
        out.append((x, num, leap))
    return out


@functools.lru_cache(None)
def chinese(year, month, day):
    """date of a day of a regular (non-leap) month of the Chinese year that
    begins in `year`"""
    for y in (year, year + 1):
        for x, n, leap in sui(y):
            if n == month and not leap:
                # months 11 and 12 of the sui belong to the year before
                if (n >= 11) == (y == year + 1):
                    return x + (day - 1) * D1
    raise ValueError((year, month, day))


def qingming(year):
    """the possible dates (one, or two when close to midnight)"""
    j = solar_term(year, 15)
    out = {date_of_jd(j, CHINA)}
    if near_midnight(j, CHINA, 20):
        out |= {date_of_jd(j - 0.02, CHINA), date_of_jd(j + 0.02, CHINA)}
    return out


# ------------------------------------------------------------------- Hebrew


def h_leap(y):
    return (7 * y + 1) % 19 < 7


def h_elapsed(y):
    m = (235 * y - 234) // 19
    parts = 12084 + 13753 * m
    day = 29 * m + parts // 25920
    return day + 1 if (3 * (day + 1)) % 7 < 3 else day


def h_new_year(y):
    """ordinal of 1 Tishri"""
    a, b, c = h_elapsed(y - 1), h_elapsed(y), h_elapsed(y + 1)
    corr = 2 if c - b == 356 else (1 if b - a == 382 else 0)
    return -1373428 + 1 + b + corr - 1 + 1


def h_ordinal(y, month, day):
    """proleptic ordinal; months from Nisan = 1, Tishri = 7"""
    n = h_new_year(y)
    ln = h_new_year(y + 1) - n
    length = {7: 30, 8: 30 if ln % 10 == 5 else 29,
              9: 29 if ln % 10 == 3 else 30, 10: 29, 11: 30,
              12: 30 if h_leap(y) else 29, 13: 29, 1: 30, 2: 29, 3: 30,
              4: 29, 5: 30, 6: 29}
    order = [7, 8, 9, 10, 11, 12] + ([13] if h_leap(y) else []) + \
        [1, 2, 3, 4, 5, 6]
    for m in order:
        if m == month:
            return n + day - 1
        n += length[m]
    raise ValueError(month)


def hebrew(gyear, month, day):
    """Gregorian date in gyear of a Hebrew month and day"""
    for y in (gyear + 3760, gyear + 3761):
        try:
            d = dtm.date.fromordinal(h_ordinal(y, month, day))
        except ValueError:
            continue
        if d.year == gyear:
            return d
    return None


# ------------------------------------------------------------------ Islamic


def islamic_ordinal(y, m, d):
    return (d + (59 * (m - 1) + 1) // 2 + (y - 1) * 354 + (3 + 11 * y) // 30
            + 227014)


def islamic(month, day, lo, hi):
    """tabular dates in [lo, hi]"""
    out = []
    y = int((lo.year - 622) * 33 / 32.0) - 1
    while True:
        d = dtm.date.fromordinal(islamic_ordinal(y, month, day))
        if d > hi:
            return out
        if d >= lo:
            out.append(d)
        y += 1


# ----------------------------------------------------------- ecclesiastical


def orthodox_easter(y):
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    m, r = divmod(d + e + 114, 31)
    return dtm.date(y, m, r + 1) + 13 * D1


def easter(y):
    a = y % 19
    b, c = divmod(y, 100)
    d, e = divmod(b, 4)
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = divmod(c, 4)
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    n, p = divmod(h + l - 7 * m + 114, 31)
    return dtm.date(y, n, p + 1)
