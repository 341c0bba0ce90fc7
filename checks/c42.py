"""C42: calendar arithmetic against integer civil-date formulas and the system's zone database."""
import datetime, os, zoneinfo
from vf.core import *

DAY = 86400 * 1000000
UTC = datetime.timezone.utc
EPOCH = datetime.datetime(1970, 1, 1, tzinfo=UTC)
FIRST = -62135596800 * 1000000      # 0001-01-01
LAST32 = 2114380800 * 1000000       # 2037-01-01: the rules at the end of zone files are not needed before


def civil(z):
    z += 719468
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    y = yoe + era * 400
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    m = mp + 3 if mp < 10 else mp - 9
    return y + (m <= 2), m, doy - (153 * mp + 2) // 5 + 1


def days(y, m, d):
    y -= m <= 2
    era = y // 400
    yoe = y - era * 400
    doy = (153 * (m + (-3 if m > 2 else 9)) + 2) // 5 + d - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def fields(tm, off, name):
    t = tm + off
    e, us = divmod(t, DAY)
    y, m, d = civil(e)
    s, us = divmod(us, 1000000)
    return [tm, y, m, d, (e + 4) % 7, s // 3600, s // 60 % 60, s % 60, us, off, hx(name), int(leap(y))]


def show(tm, off, name):
    return ' '.join(map(str, fields(tm, off, name)))


ZONES = sorted(z for z in zoneinfo.available_timezones() if '/' in z and len(z) < 32 and not z.startswith(('posix', 'right'))
               and os.path.exists('/usr/share/zoneinfo/' + z))
FAV = [z for z in ['America/New_York', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'America/St_Johns', 'Pacific/Apia',
                   'Etc/GMT+5', 'Etc/GMT-14', 'Africa/Casablanca', 'Asia/Tokyo', 'America/Argentina/Ushuaia', 'Pacific/Chatham', 'Europe/Dublin'] if z in ZONES]
CACHE = {}


def zone(z):
    if z not in CACHE:
        CACHE[z] = zoneinfo.ZoneInfo(z)
    return CACHE[z]


def offset(z, tm):
    if z in ('', 'UTC', 'local'):
        return 0
    d = EPOCH + datetime.timedelta(microseconds=tm // 1000000 * 1000000)
    o = d.astimezone(zone(z)).utcoffset()
    return o // datetime.timedelta(microseconds=1)


def rzone(r, named=.5):
    k = r.random()
    if k > named or not ZONES:
        return r.choice(['', '', 'UTC'])
    return r.choice(FAV) if k < named / 2 and FAV else r.choice(ZONES)


def transitions(r, z):
    """An instant near a change of the zone's offset."""
    t = r.randrange(-2500000000, LAST32 // 1000000)
    step = 86400 * 40
    o = offset(z, t * 1000000)
    for _ in range(20):
        u = t + step
        if u * 1000000 >= LAST32:
            break
        if offset(z, u * 1000000) != o:
            lo, hi = t, u
            while hi - lo > 1:
                m = (lo + hi) // 2
                if offset(z, m * 1000000) == o:
                    lo = m
                else:
                    hi = m
            return hi * 1000000 + r.choice([0, -1, 1, -1000000, 3599999999, -3600000000, r.randrange(-10**10, 10**10)])
        t = u
    return t * 1000000


def rtm(r, z=''):
    k = r.random()
    if z not in ('', 'UTC'):
        if k < .5:
            return min(transitions(r, z), LAST32 - 1)
        return r.randrange(-4 * 10**15, LAST32)
    if k < .1:
        return r.choice([0, -1, 1, -1000000, 999999, -999999, DAY - 1, -DAY, -DAY - 1, FIRST, FIRST + 1])
    if k < .5:
        # around the ends of months and years
        y = r.choice([1, 2, 4, 99, 100, 101, 399, 400, 401, 1600, 1900, 1969, 1970, 1999, 2000, 2001, 2024, 2100, 9999, 10000, 250000, 292000, r.randrange(1, 3000)])
        m = r.choice([1, 2, 3, 12, r.randrange(1, 13)])
        t = days(y, m, 1) * DAY + r.choice([0, -1, 1, DAY - 1, -DAY, r.randrange(-3 * DAY, 3 * DAY)])
        return max(t, FIRST)
    if k < .8:
        return r.randrange(FIRST, 253402300800 * 1000000)
    if k < .9:
        return r.randrange(FIRST, 2**63 - 10**12)
    return r.randrange(-10**16, 10**16)


def local2utc(z, y, m, d, h, mi, s):
    """The instant at which the zone shows the given time, or None when there are none or two."""
    t = (days(y, m, d) * 86400 + h * 3600 + mi * 60 + s) * 1000000
    if z in ('', 'UTC'):
        return t
    c = {t - offset(z, t + k * 3600 * 10**6) for k in range(-26, 27, 2)}
    c = [u for u in c if u + offset(z, u) == t]
    return c[0] if len(c) == 1 else None


def mdays(y, m):
    return [31, 29 if leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def cases(r, n):
    for _ in range(n):
        k = r.choice('iiiddDDaappppzzo')
        z = rzone(r)
        t = rtm(r, z)
        if k == 'i':
            yield 'i %d %s' % (t, hx(z)), show(t, offset(z, t), z)
        elif k in 'dD':
            y, m, d, wd, h, mi, s = fields(t, 0, '')[1:8]
            if r.random() < .3:
                d = mdays(y, m)
            if k == 'D':
                h = mi = s = 0
            u = local2utc(z, y, m, d, h, mi, s)
            if u is None:
                continue
            w = show(u, offset(z, u), z)
            yield ('d %d %d %d %d %d %d %s' % (y, m, d, h, mi, s, hx(z)) if k == 'd' else 'D %d %d %d %s' % (y, m, d, hx(z))), w
        elif k == 'a':
            v = r.choice([0, 1, -1, DAY, -DAY, 3600 * 10**6, r.randrange(-10**15, 10**15), r.randrange(-10**10, 10**10)])
            o = offset(z, t)
            if t - abs(v) < FIRST + DAY or t + abs(v) > 2**63 - 10**12:
                continue
            yield 'a %d %s %d' % (t, hx(z), v), periodic(z, [(t + v, o), (t - v, o)], str(v))
        elif k == 'p':
            q = r.choice('YMDhms')
            v = r.choice([0, 1, -1, 2, 11, 12, 13, 24, 25, 60, 100, r.randrange(-50, 50), r.randrange(-3000, 3000)])
            o = offset(z, t)
            f = fields(t, o, z)
            rs = []
            for v1 in (v, -v):
                y, m, d, _, h, mi, s, us = f[1:9]
                unit = {'D': DAY, 'h': 3600 * 10**6, 'm': 60 * 10**6, 's': 10**6}.get(q)
                if unit:
                    rs.append((t + v1 * unit, o))
                    continue
                if q == 'Y':
                    y += v1
                else:
                    y, m = y + (m - 1 + v1) // 12, (m - 1 + v1) % 12 + 1
                if y < 1 or y > 290000:
                    rs = None
                    break
                tod = (t + o) % DAY
                if d <= mdays(y, m):
                    rs.append((days(y, m, d) * DAY + tod - o, o))
                else:
                    # the last day of the month, or that many days into the next
                    rs.append(((days(y, m, 1) + d - 1) * DAY + tod - o, o, days(y, m, mdays(y, m)) * DAY + tod - o))
            if not rs or any(x[0] < FIRST + DAY for x in rs):
                continue
            yield 'p %s %d %d %s' % (q, v, t, hx(z)), periodic(z, rs, '')
        elif k == 'z':
            z2 = rzone(r, .8)
            if z2 not in ('', 'UTC'):
                t = rtm(r, z2)
            if z not in ('', 'UTC') and not -4 * 10**15 < t < LAST32:
                continue
            yield 'z %d %s %s' % (t, hx(z), hx(z2)), show(t, offset(z2, t), z2)
        else:
            yield 'o %d %s' % (t, hx(z)), '%d 0' % offset(z, t)


def periodic(z, rs, tail):
    """The result is at the given instant, shown with the offset of the original or the one in effect."""
    def f(out):
        p = out.split()
        for x in rs:
            got, p = p[:12], p[12:]
            ok = []
            for t in (x[0],) + x[2:]:
                offs = {x[1]}
                if z not in ('', 'UTC') and t < LAST32:
                    offs.add(offset(z, t))
                for o in offs:
                    ok.append(show(t, o, z).split())
                    # a change of the offset may also keep the clock time instead of the duration
                    if not tail:
                        ok.append(show(t + x[1] - o, o, z).split())
            if got not in ok:
                return 'got %s, expected %s' % (' '.join(got), ' '.join(ok[0]))
        if ' '.join(p) != tail:
            return 'duration %s, expected %s' % (p, tail)
    return f


def streams(r, n):
    yield 'c42', (), [c for c, _ in cases(r, n)]


def findings(ck, d):
    """The listed findings, probed one by one."""
    for t in (days(0, 1, 31) * DAY, days(-248, 11, 20) * DAY, -70000000000 * 10**6, days(-4000, 6, 1) * DAY + 5):
        out = d.run(['i %d -' % t])[0]
        y, m, dd = civil((t) // DAY)
        p = out.split()
        ck.saw('bce %d' % t)
        if p[:1] != [str(t)] or p[2:4] != [str(m), str(dd)] or p[1] not in (str(y), str(y - 1)):
            ck.violation('bce: %d' % t, 'instant %d: %s, expected year %d, month %d, day %d' % (t, out, y, m, dd), {'commands.txt': 'i %d -\n' % t})
    if 'America/New_York' in ZONES:
        for t in (2225880000 * 10**6, 4118040000 * 10**6):   # July 2040 and 2100
            out = d.run(['o %d %s' % (t, hx('America/New_York'))])[0]
            w = '%d 0' % offset('America/New_York', t)
            ck.saw('late %d' % t)
            if out != w:
                ck.violation('late: America/New_York %d' % t, 'offset %s, expected %s' % (out, w), {'commands.txt': 'o %d %s\n' % (t, hx('America/New_York'))})


def check(ck):
    d = Driver(ck, Tree('all'), 'c42')
    d.check(list(cases(ck.sub('c'), ck.n(20000, 400000))), timeout=120)
    # every day of 400 years, every month end far away
    r = ck.sub('d')
    days_ = range(days(1600, 1, 1), days(2401, 1, 2)) if not ck.quick else r.sample(range(days(1600, 1, 1), days(2401, 1, 2)), 20000)
    d.check([('i %d -' % (x * DAY), show(x * DAY, 0, '')) for x in days_], timeout=120)
    # every zone: at the ends and around some transitions
    cs = []
    for z in ZONES:
        for t in [-5 * 10**15, 0, LAST32 - 1] + [min(transitions(r, z), LAST32 - 1) for _ in range(ck.n(6, 60))]:
            cs.append(('i %d %s' % (t, hx(z)), show(t, offset(z, t), z)))
    d.check(cs, timeout=120)
    now = d.run(['n'])[0].split()
    ck.saw('now')
    if now[0] != '1' or now[13] != '1':
        ck.violation('now', 'the current time is not the current time: %s' % now)
    findings(ck, d)
    ck.extra['zones'] = len(ZONES)
    ck.rule = ('generated instants over the representable range (month, year, leap and offset boundaries), constructors, durations, periods and zone '
               'conversions; days of the years 1600-2400; every zone of the database around transitions; reference: integer civil-date formulas and '
               "the host's zone database reader")


TECH = 'runtime monitoring: differential oracle (integer calendar formulas, independent zone database reader) over generated instants'
NOTE = ('zones are judged from before their first transition to 2037 (later instants: known finding); a period added across a change of offset may '
        'keep the old offset or follow the zone; a day past the end of the month may be clamped or carried; civil times that a zone skips or '
        'repeats are not judged; dates before the year 1: known finding')
