"""What each vessel's logger writes. Times are integer microseconds since 1970 UTC.

Every function returns the bytes of a line and, where it matters, the row a
faithful reader must produce from it. Nothing here is shared with the library.
"""
import calendar
import time as _time

US = 1000000
DAY = 86400 * US


def civil(us):
    """(year, month, day, hour, minute, second, microsecond, day of year)"""
    s, f = divmod(us, US)
    t = _time.gmtime(s)
    return t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, f, t.tm_yday


def utc(y, mo, d, h=0, mi=0, s=0, us=0):
    return calendar.timegm((y, mo, d, h, mi, s)) * US + us


def any_year(rng, low=1985):
    """Mostly this century so far; now and then before it or after 2038."""
    y = rng.randint(2000, 2037)
    return y if rng.chance(0.85) else rng.randint(low, 2062)


def frac(us, digits):
    """Truncated fraction as text (with its point), '' for 0 digits."""
    return '.' + ('%06d' % us)[:digits] if digits else ''


def trunc(us, digits):
    q = 10 ** (6 - digits)
    return us - us % q


def checksum(body):
    c = 0
    for ch in body:
        c ^= ord(ch)
    return '%02X' % c


def nmea(body):
    return '$%s*%s' % (body, checksum(body))


def degmin(x, width, digits):
    """(text ddmm.mmm of |x|, value a reader must get)"""
    q = 10 ** digits
    tot = int(round(abs(x) * 60 * q))
    dd, mm = divmod(tot, 60 * q)
    mi, mf = divmod(mm, q)
    txt = '%0*d%02d' % (width, dd, mi) + ('.%0*d' % (digits, mf) if digits else '')
    return txt, dd + float('%02d' % mi + ('.%0*d' % (digits, mf) if digits else '')) / 60


def clock_text(us, digits):
    y, mo, d, h, mi, s, f, doy = civil(us)
    return '%02d%02d%02d' % (h, mi, s) + frac(f, digits)


def gga(talker, gps_us, lat, lon, cdig, mdig, extra=(2, 12, 0.9, '4.0,0402'), drop=False):
    """GGA sentence; returns text, time given (us), lat, lon (None when dropped out)"""
    ct = clock_text(gps_us, cdig)
    t = trunc(gps_us, cdig)
    if drop:
        return nmea('%s,%s,,,,,0,00,99.9,,M,,M,,' % (talker, ct)), t, None, None
    la, lav = degmin(lat, 2, mdig)
    lo, lov = degmin(lon, 3, mdig)
    ns = 'S' if lat < 0 else 'N'
    ew = 'W' if lon < 0 else 'E'
    body = '%s,%s,%s,%s,%s,%s,%d,%02d,%.1f,25.169,M,-30.062,M,%s' % ((talker, ct, la, ns, lo, ew) + tuple(extra))
    return nmea(body), t, -lav if ns == 'S' else lav, -lov if ew == 'W' else lov


# ------------------------------------------------------------------ navigation

NAV = {
    # ship: default talker, digits of the logger's stamp, which clock dates a fix
    'Atlantis': dict(talker='GPGGA', sdig=3, clock='gps'),
    'NBP': dict(talker='GPGGA', sdig=3, clock='gps'),
    'Thompson': dict(talker='INGGA', sdig=3, clock='gps_s'),
    'Revelle': dict(talker='GPGGA', sdig=6, clock='gps'),
    'Ride': dict(talker='INGGA', sdig=3, clock='log'),
    'RideGP': dict(talker='GPGGA', sdig=5, clock='log'),
    'Langseth': dict(talker='INGGA', sdig=4, clock='log'),
    'Sikuliaq': dict(talker='GPGGA', sdig=4, clock='log'),
}


def shipname(s):
    return 'Ride' if s == 'RideGP' else s


def nav_prefix(ship, st, sentence, sdig=None):
    y, mo, d, h, mi, s, f, doy = civil(st)
    fr = frac(f, NAV[ship]['sdig'] if sdig is None else sdig)
    if ship == 'Atlantis':
        return 'NAV %04d/%02d/%02d %02d:%02d:%02d%s GPS ' % (y, mo, d, h, mi, s, fr)
    if ship == 'NBP':
        return '%02d+%03d:%02d:%02d:%02d%s ' % (y % 100, doy, h, mi, s, fr)
    if ship == 'Thompson':
        return '%02d/%02d/%04d,%02d:%02d:%02d%s,' % (mo, d, y, h, mi, s, fr)
    if ship == 'Ride':
        return '%d%s ' % (st // US, fr)
    if ship in ('Revelle', 'RideGP'):
        return '%04d-%02d-%02dT%02d:%02d:%02d%sZ ' % (y, mo, d, h, mi, s, fr)
    if ship == 'Langseth':
        return 'seapath\t%04d:%03d:%02d:%02d:%02d%s\t' % (y, doy, h, mi, s, fr)
    if ship == 'Sikuliaq':
        return 'ins_seapath_position\t%04d-%02d-%02dT%02d:%02d:%02d%sZ\t' % (y, mo, d, h, mi, s, fr)
    raise KeyError(ship)


def nav_time(ship, stamp_us, gps_us, cdig, sdig=None):
    """The instant a fix denotes: the GPS clock time (as written) or the logger's stamp."""
    c = NAV[ship]['clock']
    if c == 'log':
        return trunc(stamp_us, NAV[ship]['sdig'] if sdig is None else sdig)
    t = trunc(gps_us, cdig)
    return t - t % US if c == 'gps_s' else t


DECOYS = {
    'ZDA': lambda p, t, la, lo: nmea('%sZDA,%s,%02d,%02d,%04d,00,00' % (p, clock_text(t, 2), civil(t)[2], civil(t)[1], civil(t)[0])),
    'VTG': lambda p, t, la, lo: nmea('%sVTG,218.7,T,,M,0.01,N,0.02,K,D' % p),
    'HDT': lambda p, t, la, lo: nmea('%sHDT,4.62,T' % p),
    'GLL': lambda p, t, la, lo: nmea('%sGLL,%s,N,%s,W,%s,A,D' % (p, degmin(la + 3, 2, 6)[0], degmin(lo / 2, 3, 6)[0], clock_text(t, 2))),
    'RMC': lambda p, t, la, lo: nmea('%sRMC,%s,A,%s,N,%s,W,0.01,218.7,010722,,,D' % (p, clock_text(t, 2), degmin(la + 3, 2, 6)[0], degmin(lo / 2, 3, 6)[0])),
    'PSXN': lambda p, t, la, lo: nmea('PSXN,23,-1.32,0.06,200.70,-0.03'),
    'GSA': lambda p, t, la, lo: nmea('%sGSA,M,3,21,31,09,16,03,01,26,04,22,,,,1.7,0.8,1.5' % p),
}


def note(kind, t):
    """A sentence with another date in it."""
    y, mo, d, h, mi, s, f, doy = civil(t - 3 * 366 * DAY)
    return nmea(['PMSG,log opened %04d-%02d-%02dT%02d:%02d:%02d' % (y, mo, d, h, mi, s), 'PMSG,%04d/%02d/%02d %02d:%02d:%02d' % (y, mo, d, h, mi, s),
                 'PMSG,%02d/%02d/%04d,%02d:%02d:%02d' % (mo, d, y, h, mi, s), 'PMSG,%02d+%03d:%02d:%02d:%02d' % (y % 100, doy, h, mi, s),
                 'PMSG,seapath\t%04d:%03d:%02d:%02d:%02d.0000\t' % (y, doy, h, mi, s)][kind])


# ------------------------------------------------------------------ gravimeters

BGM_SCALE = {'Atlantis': 4.994070552, 'Thompson': 5.003353363, 'Revelle': 4.99980755, 'Langseth': 5.0}
BGM_DIG = {'Atlantis': 3, 'Thompson': 3, 'Revelle': 6, 'Langseth': 4}


def bgm(ship, st, counts, flag=0, dig=None):
    """BGM serial record; row: date_time (us), counts"""
    y, mo, d, h, mi, s, f, doy = civil(st)
    dig = BGM_DIG[ship] if dig is None else dig
    if ship == 'Atlantis':
        line = 'BGM %04d/%02d/%02d %02d:%02d:%02d%s BGM3 04:%06d %02d\n' % (y, mo, d, h, mi, s, frac(f, dig), counts, flag)
    elif ship == 'Thompson':
        line = '%02d/%02d/%04d,%02d:%02d:%02d%s,04:%06d %02d\n' % (mo, d, y, h, mi, s, frac(f, dig), counts, flag)
    elif ship == 'Revelle':
        line = '%04d-%02d-%02dT%02d:%02d:%02d%sZ 04:%06d %02d\n' % (y, mo, d, h, mi, s, frac(f, dig), counts, flag)
    else:
        line = 'vc01\t%04d:%03d:%02d:%02d:%02d%s\t04:%06d %02d\n' % (y, doy, h, mi, s, frac(f, dig), counts, flag)
    return line.encode(), {'date_time': trunc(st, dig), 'counts': counts}


def rgs(st, grav, counts, lat, lon, blank=False, cr=True):
    y, mo, d, h, mi, s, f, doy = civil(st)
    px = '%d.%03d' % (st // US, f // 1000)
    line = ('RGS %04d/%02d/%02d %02d:%02d:%02d%s %.3f %d %s 4.994070552 855577.390 BGM3 S210 GPS: %.6f %.6f %s 0 0 '
            'UNKNOWN_SRC 0.010 135.000 DEPTH: -999 -999 NONE HDG: 243.380 %s SRC_GYRO NO_DNV_ERROR %s -999%s\n%s'
            % (y, mo, d, h, mi, s, frac(f, 3), grav, counts, px, lat, lon, px, px, px, '\r' if cr else '', '\n' if blank else ''))
    return line.encode(), {'date_time': trunc(st, 3), 'grav': float('%.3f' % grav),
                           'lat': float('%.6f' % lat), 'lon': float('%.6f' % lon)}


LAP = ['rgrav', 'long_a', 'crss_a', 'beam', 'temp', 'status', 'checksum', 'press', 'etemp', 've', 'vcc', 'al', 'ax',
       'lat', 'lon', 'speed', 'course', 'vmond']
LAP_OUT = ['rgrav', 'long_a', 'crss_a', 'status', 've', 'vcc', 'al', 'ax', 'lat', 'lon']
SIK_HEAD = ('# Platform:\n#   Name: R/V Sikuliaq\n#   Operator: UAF\n#   IMO Number: 9578945\n#   ICES Code: 33BI\n'
            '#   Call Sign: WDN7246\n#   MMSI Number: 338417000\n# Cruise ID: SKQ202418S\n#\n# Instrument:\n'
            '#   Name: Dynamic Gravity Systems Advanced Technology Marine Gravimeter\n#   Model: AT1-M\n#   Serial Number: 33\n'
            '#   Location: Aft inboard wall of tech workshop, 1-12-1\n#   Installation Date: 28 November 2023\n#\n'
            '# Parameters:\n# Log Name\tLog Time\tQC_Gravity, Gravity, ...\n#\n').encode()
LAP_SHIPS = ['Atlantis', 'Revelle', 'NBP', 'Ride', 'DGStest', 'Thompson', 'Sikuliaq', 'Langseth']


def laptop(ship, st, meter_us, v, num, dig=None):
    """DGS laptop record. v: dict over LAP. The meter's own clock dates the record,
    except on the Thompson, where the logger's prefix does."""
    y, mo, d, h, mi, s, f, doy = civil(meter_us)
    cells = ['%.12f' % v['qc']]
    row = {}
    for k in LAP:
        if k in ('status', 'checksum'):
            t = '%16d' % v[k]
        else:
            t = '' if v[k] is None else '%15.12f' % v[k]
        cells.append(t)
        if k in LAP_OUT:
            row[k] = None if t == '' else int(t) if k == 'status' else float(t)
    body = ','.join(cells) + ',%04d,%02d,%02d,%02d,%02d,%05.2f,%d' % (y, mo, d, h, mi, s + (f // 10000) / 100.0, num)
    row['date_time'] = trunc(meter_us, 2)
    ly, lmo, ld, lh, lmi, ls, lf, ldoy = civil(st)
    if ship == 'Thompson':
        line = '%02d/%02d/%04d,%02d:%02d:%02d%s,%s\n' % (lmo, ld, ly, lh, lmi, ls, frac(lf, 3 if dig is None else dig), body)
        row['date_time'] = trunc(st, 3 if dig is None else dig)
        for k in ('long_a', 'crss_a', 'status'):
            row.pop(k)
    elif ship == 'Sikuliaq':
        line = 'grav_dgs_33_proc\t%04d-%02d-%02dT%02d:%02d:%02d%sZ\t%s\n' % (ly, lmo, ld, lh, lmi, ls, frac(lf, 4 if dig is None else dig), body)
    elif ship == 'Langseth':
        line = 'dgsdata\t%04d:%03d:%02d:%02d:%02d%s\t%s\n' % (ly, ldoy, lh, lmi, ls, frac(lf, 4 if dig is None else dig), body)
    else:
        line = body + '\n'
    return line.encode(), row


RAW = ['Gravity', 'Long', 'Cross', 'Beam', 'Temp', 'Pressure', 'ElecTemp', 'vcc', 've', 'al', 'ax', 'status', 'checksum']
RAW_MODES = ['sync', 'unsync', 'unsync_bare', 'Thompson', 'Sikuliaq']


def raw(mode, st, meter_us, v, num, scale=True, dig=None):
    """DGS raw record; modes: calendar stamp in the record, epoch/uptime stamp with
    the logger's ISO prefix or none, Thompson's and Sikuliaq's own formats."""
    cells = [str(int(v[k])) for k in RAW]
    lat, lon = '%.10f' % v['latitude'], '%.10f' % v['longitude']
    sp, co = '%.4f' % v['speed'], '%.4f' % v['course']
    name = '$AT1M_3.64_%d' % num
    my, mmo, md, mh, mmi, ms, mf, mdoy = civil(meter_us)
    ly, lmo, ld, lh, lmi, ls, lf, ldoy = civil(st)
    row = {k: int(v[k]) for k in RAW}
    row.update(latitude=float(lat), longitude=float(lon), speed=float(sp), course=float(co))
    if scale:
        for k in ('ve', 'vcc', 'al', 'ax'):
            row[k] = row[k] * 1e-5
    if mode == 'sync':
        ts = '%04d%02d%02d%02d%02d%02d' % (my, mmo, md, mh, mmi, ms)
        pre = ''
        row['date_time'] = meter_us - meter_us % US
        tail = '\n'
    elif mode in ('unsync', 'unsync_bare'):
        ts = '1%09d' % (num % 10 ** 9)
        pre = '%04d-%02d-%02dT%02d:%02d:%02d%sZ ' % (ly, lmo, ld, lh, lmi, ls, frac(lf, 6 if dig is None else dig)) if mode == 'unsync' else ''
        if mode == 'unsync':
            row['date_time'] = trunc(st, 6 if dig is None else dig)
        tail = '\n'
    elif mode == 'Thompson':
        ts = '%014d' % num
        pre = '%02d/%02d/%04d,%02d:%02d:%02d%s,' % (lmo, ld, ly, lh, lmi, ls, frac(lf, 3 if dig is None else dig))
        row['date_time'] = trunc(st, 3 if dig is None else dig)
        tail = '\0\n'
    else:
        ts = str(num)
        pre = 'grav_dgs_33_raw\t%04d-%02d-%02dT%02d:%02d:%02d%sZ\t' % (ly, lmo, ld, lh, lmi, ls, frac(lf, 4 if dig is None else dig))
        tail = '\n'
        row = {'rgrav': row['Gravity'], 'long_a': row['Long'], 'crss_a': row['Cross'], 'vcc': row['vcc'],
               've': row['ve'], 'al': row['al'], 'ax': row['ax'], 'lat': row['latitude'], 'lon': row['longitude'],
               'date_time': trunc(st, 4 if dig is None else dig)}
    line = pre + ','.join([name] + cells + [lat, lon, sp, co, ts]) + tail
    return line.encode(), row
