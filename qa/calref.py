"""Declarative reference for the holiday calendars (the oracle of C01..C04).

Every calendar is a table of `label: when; when; ...` lines.  A `when` is

    d/m  d-d/m  d,d/m   days of a month (d may be `last7` = the last seven days)
    E  E-3  E+38        offset in days from (Western) Easter Monday
    O  O+49             offset from Orthodox Easter Monday
    P R I A             Passover I, Rosh Hashanah, Independence Day, Fast of Av (Hebrew calendar)

optionally followed by weekdays (`Mon`, `Mon|Tue`, `!Tue|Wed`) and years (`[1971..]`, `[..2005]`,
`[2012,2016]`, `![2015]`).  Easter and the
Hebrew feasts are computed here (computus, molad arithmetic), not read
from the tables of the library.  `@2004 22-24/1 5/4` lines list the days announced for one year.
A date is a holiday iff it is a weekend day (`weekend` line) or matches a line; `working` lines
(Russian exchange) list weekend days that are worked, and `open` lines override a holiday line.
"""
import datetime
import re
import numpy as np

LO, HI = 1901, 2199
WD = {n: i for i, n in enumerate(['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun'])}


def easter_monday(y):
    """Ordinal day (1 = 1 January) of the Monday after Western Easter, year array y."""
    a, b, c = y % 19, y // 100, y % 100
    d, e = b // 4, b % 4
    f = (b + 8) // 25
    g = (b - f + 1) // 3
    h = (19 * a + b - d - g + 15) % 30
    i, k = c // 4, c % 4
    l = (32 + 2 * e + 2 * i - h - k) % 7
    m = (a + 11 * h + 22 * l) // 451
    mo, da = (h + l - 7 * m + 114) // 31, (h + l - 7 * m + 114) % 31 + 1
    return ordinal(y, mo, da) + 1


def orthodox_easter_monday(y):
    a, b, c = y % 4, y % 7, y % 19
    d = (19 * c + 15) % 30
    e = (2 * a + 4 * b - d + 34) % 7
    mo, da = (d + e + 114) // 31, (d + e + 114) % 31 + 1
    return ordinal(y, mo, da) + (y // 100 - y // 400 - 2) + 1


def ordinal(y, m, d):
    x = ((y - 1970) * 12 + m - 1).astype('datetime64[M]').astype('datetime64[D]') + (d - 1)
    return (x - (y - 1970).astype('datetime64[Y]').astype('datetime64[D]')).astype(np.int64) + 1


class Days:
    """All dates of the supported range, as arrays."""

    def __init__(self, lo=LO, hi=HI):
        t = np.arange(np.datetime64('%04d-01-01' % lo), np.datetime64('%04d-01-01' % (hi + 1)))
        self.t, self.n = t, len(t)
        self.rd = (t - np.datetime64('0001-01-01')).astype(np.int64) + 1
        self.y = t.astype('datetime64[Y]').astype(np.int64) + 1970
        self.m = t.astype('datetime64[M]').astype(np.int64) % 12 + 1
        self.d = (t - t.astype('datetime64[M]')).astype(np.int64) + 1
        self.dd = (t - t.astype('datetime64[Y]')).astype(np.int64) + 1
        nm = (t.astype('datetime64[M]') + 1).astype('datetime64[D]')
        self.left = (nm - t).astype(np.int64)          # days left in the month, counting this one
        self.w = (self.rd + 6) % 7                      # 0 = Monday
        ys = np.arange(lo, hi + 1)
        self.em = easter_monday(ys)[self.y - lo]
        self.om = orthodox_easter_monday(ys)[self.y - lo]
        self.ve, self.ae = equinoxes(self.y)
        self.feast = {'E': self.em, 'O': self.om}
        for k, v in zip('PRIA', hebrew_feasts(ys)):
            self.feast[k] = v[self.y - lo]


def equinoxes(y):
    """Days of March/September of the Japanese equinox holidays (National Astronomical Observatory
    formula; the 2100 constants are used from then on)."""
    k = np.where(y < 1980, (y - 1983), (y - 1980))
    lead = np.where(y < 1980, -((1983 - y) // 4), k // 4)
    v0 = np.where(y < 1980, 20835700, np.where(y < 2100, 20843100, 21851000))
    a0 = np.where(y < 1980, 23258800, np.where(y < 2100, 23248800, 24248800))
    ve = (v0 + 242194 * (y - 1980)) // 1000000 - lead
    ae = (a0 + 242194 * (y - 1980)) // 1000000 - lead
    return ve, ae


def hebrew_feasts(ys):
    """Ordinals of Passover I, Rosh Hashanah, Independence Day and the Fast of Av in the given years
    (arithmetic Hebrew calendar)."""
    def molad(y):
        m = (235 * y - 234) // 19
        d = m * 29 + (12084 + 13753 * m) // 25920
        return d + ((3 * (d + 1)) % 7 < 3)

    def new_year(y):
        a, d, b = molad(y - 1), molad(y), molad(y + 1)
        return d + (2 if b - d == 356 else 1 if d - a == 382 else 0)
    out = [[], [], [], []]
    for y in ys:
        jan0 = datetime.date(int(y), 1, 1).toordinal() - 1
        r = new_year(int(y) + 3761) - 1373427
        p = r - 163
        i = p + 20                                     # 5 Iyar, moved off Friday, Saturday and Monday
        i += {4: -1, 5: -2, 0: 1}.get((i + 6) % 7, 0)
        a = p + 112
        a += (a + 6) % 7 == 5                          # 9 Av, moved off Saturday
        for l, v in zip(out, (p, r, i, a)):
            l.append(v - jan0)
    return [np.array(l) for l in out]


TOK = re.compile(r'^(?:(?P<e>[EOPRIA])(?P<off>[+-]\d+)?|(?P<days>[\d,\-]+|last7|ve\+?1?|ae[+-]?1?)/(?P<m>\d+)|any)$')


def years(spec, D):
    neg = spec.startswith('!')
    body = spec.lstrip('!')[1:-1]
    r = np.zeros(D.n, dtype=bool)
    for part in body.split(','):
        if '..' in part:
            a, b = part.split('..')
            k = np.ones(D.n, dtype=bool)
            if a:
                k &= D.y >= int(a)
            if b:
                k &= D.y <= int(b)
            r |= k
        else:
            r |= D.y == int(part)
    return ~r if neg else r


def when(spec, D):
    ps = spec.split()
    m = TOK.match(ps[0])
    if not m:
        raise ValueError('bad rule %r' % spec)
    if m['e']:
        r = D.dd == D.feast[m['e']] + int(m['off'] or 0)
    elif m['days'] is None:
        r = np.ones(D.n, dtype=bool)
    else:
        r = (D.m == int(m['m']))
        k = np.zeros(D.n, dtype=bool)
        t = m['days']
        if t == 'last7':
            k = D.left <= 7
        elif t[:2] in ('ve', 'ae'):
            k = D.d == (D.ve if t[0] == 'v' else D.ae) + int(t[2:] or 0)
        else:
            for p in t.split(','):
                a, _, b = p.partition('-')
                k |= (D.d >= int(a)) & (D.d <= int(b or a))
        r = r & k
    for p in ps[1:]:
        if '[' in p:
            r = r & years(p, D)
        else:
            neg = p.startswith('!')
            k = np.isin(D.w, [WD[x] for x in p.lstrip('!').split('|')])
            r = r & (~k if neg else k)
    return r


class Table:
    def __init__(self, text):
        self.rules, self.weekend, self.open = [], ('Sat', 'Sun'), []
        for line in text.strip().splitlines():
            line = line.strip()
            if not line:
                continue
            if line[0] == '@':
                y, *ds = line[1:].split()
                self.rules.append(('announced for ' + y, ['%s [%s]' % (d, y) for d in ds]))
                continue
            lab, _, body = line.partition(':')
            ws = [w.strip() for w in body.split(';')]
            if lab == 'weekend':
                self.weekend = tuple(ws)
            elif lab == 'open' or lab == 'working':
                self.open += ws
            else:
                self.rules.append((lab, ws))

    def holidays(self, D):
        """(holiday array, index of the first rule that makes it one: -1 weekend, -2 none)."""
        wk = np.isin(D.w, [WD[x] for x in self.weekend])
        why = np.full(D.n, -2)
        for i, (lab, ws) in reversed(list(enumerate(self.rules))):
            for w in ws:
                why[when(w, D)] = i
        why[wk] = -1
        for w in self.open:
            why[when(w, D)] = -2
        return why != -2, why

    def label(self, i):
        return {-1: 'weekend', -2: 'no rule'}.get(i) or self.rules[i][0]


NY = "New Year: 1/1\n"
XMAS = "Christmas: 25/12\nSt. Stephen / Boxing Day: 26/12\n"
EASTER = "Good Friday: E-3\nEaster Monday: E\n"
UKXMAS = "Christmas: 25/12; 27/12 Mon|Tue\nBoxing Day: 26/12; 28/12 Mon|Tue\n"
LABOUR = "Labour Day: 1/5\n"

T = {}
KNOWN = {}    # configuration -> (key of the known finding, table describing what the library does)


def cal(names, text):
    for n in names.split():
        T[n] = text


cal('WeekendsOnly', '')
cal('Argentina', NY + LABOUR + """
Holy Thursday: E-4
Good Friday: E-3
May Revolution: 25/5
General Belgrano: 15-21/6 Mon
Independence: 9/7
San Martin: 15-21/8 Mon
Columbus: 10-12/10 Mon; 15-16/10 Mon
Immaculate Conception: 8/12
Christmas Eve: 24/12
New Year's Eve: 31/12; 30/12 Fri""")
AT = NY + XMAS + LABOUR + """
Easter Monday: E
Whit Monday: E+49
National Holiday: 26/10 [1967..]; 12/11 [1919..1934]
"""
cal('Austria Austria:Settlement', AT + """
Epiphany: 6/1
Ascension: E+38
Corpus Christi: E+59
Assumption: 15/8
All Saints: 1/11
Immaculate Conception: 8/12""")
cal('Austria:Exchange', AT + "Good Friday: E-3\nChristmas Eve: 24/12\nNew Year's Eve: 31/12")
AU = EASTER + UKXMAS + """
New Year: 1/1; 2-3/1 Mon
Australia Day: 26/1; 27-28/1 Mon
ANZAC: 25/4
Sovereign's Birthday: 8-14/6 Mon
Day of Mourning: 22/9 [2022]
"""
cal('Australia Australia:Settlement', AU + "Bank Holiday: 1-7/8 Mon\nLabour Day: 1-7/10 Mon")
cal('Australia:ASX', AU)
cal('Botswana', EASTER + """
New Year: 1/1; 2/1 Mon; 3/1 Tue
Labour Day: 1/5; 2/5 Mon
Ascension: E+38
Sir Seretse Khama: 1/7; 2/7 Mon
Presidents' Day: 15-21/7 Mon
Independence: 30/9; 1/10 Mon
Botswana Day: 1/10; 2/10 Mon; 3/10 Tue
Christmas: 25/12
Boxing Day: 26/12; 27/12 Mon""")
BR = NY + LABOUR + """
Tiradentes: 21/4
Independence: 7/9
Aparecida: 12/10
All Souls: 2/11
Republic: 15/11
Christmas: 25/12
Passion of Christ: E-3
Carnival: E-49; E-48
Corpus Christi: E+59
"""
cal('Brazil Brazil:Settlement', BR)
cal('Brazil:Exchange', BR + """
Sao Paulo: 25/1
Revolution: 9/7
Black Consciousness: 20/11 [2007..]
Christmas Eve: 24/12
Last business day of the year: 31/12; 29-31/12 Fri""")
CA = UKXMAS + """
New Year: 1/1; 2-3/1 Mon
Family Day: 15-21/2 Mon [2008..]
Good Friday: E-3
Easter Monday: E
Victoria Day: 18-24/5 Mon
Canada Day: 1/7; 2-3/7 Mon
Provincial Holiday: 1-7/8 Mon
Labor Day: 1-7/9 Mon
Truth and Reconciliation: 30/9 [2021..]; 1-2/10 Mon [2021..]
Thanksgiving: 8-14/10 Mon
"""
CA = CA.replace('Easter Monday: E\n', '')
cal('Canada Canada:Settlement', CA + "Remembrance: 11/11; 12-13/11 Mon")
cal('Canada:TSX', CA)
cal('Chile', """
New Year: 1/1; 2/1 Mon [2017..]
Good Friday: E-3
Easter Saturday: E-2
Labour Day: 1/5
Navy Day: 21/5
Aboriginal People: 21/6 [2021..]
St. Peter and St. Paul: 26-29/6 Mon; 2/7 Mon
Our Lady of Mount Carmel: 16/7
Assumption: 15/8
Independence: 17/9 Mon [2007..]; 17/9 Fri [2017..]; 18/9
Army: 19/9; 20/9 Fri [2007..]
Discovery of Two Worlds: 9-12/10 Mon; 15/10 Mon
Reformation: 27/10 Fri [2008..]; 31/10 !Tue|Wed [2008..]; 2/11 Fri [2008..]
All Saints: 1/11
Immaculate Conception: 8/12
Christmas: 25/12""")
cal('CzechRepublic', NY + XMAS + LABOUR + """
Good Friday: E-3 [2016..]
Easter Monday: E
Liberation: 8/5
Cyril and Methodius: 5/7
Jan Hus: 6/7
Statehood: 28/9
Independence: 28/10
Freedom and Democracy: 17/11
Christmas Eve: 24/12
Exchange closings: 2/1 [2004]; 31/12 [2004]""")
cal('Denmark', NY + XMAS + EASTER + """
Maundy Thursday: E-4
General Prayer Day: E+25 [..2023]
Ascension: E+38
Day after Ascension: E+39 [2009..]
Whit Monday: E+49
Constitution: 5/6
Christmas Eve: 24/12
New Year's Eve: 31/12""")
cal('Finland', NY + XMAS + EASTER + LABOUR + """
Epiphany: 6/1
Ascension: E+38
Midsummer Eve: 19-25/6 Fri
Independence: 6/12
Christmas Eve: 24/12""")
FR = NY + LABOUR + """
Easter Monday: E
Victory 1945: 8/5
National Day: 14/7
Assumption: 15/8
All Saints: 1/11
Armistice: 11/11
Christmas: 25/12
"""
cal('France France:Settlement', FR + "Ascension: E+38\nPentecost Monday: E+49")
# known finding: the library keeps the 2018 dates of the two movable feasts in every year
KNOWN['France'] = KNOWN['France:Settlement'] = ('fixed-Ascension', FR + "Ascension (fixed): 10/5\nPentecost (fixed): 21/5")
EX = NY + EASTER + LABOUR + XMAS + "Christmas Eve: 24/12\n"
cal('France:Exchange', EX + "New Year's Eve: 31/12")
cal('Germany:Settlement', EX + """
Ascension: E+38
Whit Monday: E+49
Corpus Christi: E+59
Unity: 3/10""")
cal('Germany Germany:FrankfurtStockExchange Germany:Xetra', EX)
cal('Germany:Eurex', EX + "New Year's Eve: 31/12")
cal('Germany:Euwax', EX + "Whit Monday: E+49")
cal('Hungary', NY + XMAS + LABOUR + """
Good Friday: E-3 [2017..]
Easter Monday: E
Whit Monday: E+49
National Day: 15/3
Constitution: 20/8
Republic: 23/10
All Saints: 1/11""")
cal('Iceland', NY + XMAS + EASTER + LABOUR + """
Holy Thursday: E-4
First Day of Summer: 19-25/4 Thu
Ascension: E+38
Whit Monday: E+49
Independence: 17/6
Commerce Day: 1-7/8 Mon""")
cal('Italy Italy:Settlement', NY + XMAS + LABOUR + """
Epiphany: 6/1
Easter Monday: E
Liberation: 25/4
Republic: 2/6 [2000..]
Assumption: 15/8
All Saints: 1/11
Immaculate Conception: 8/12
Millennium: 31/12 [1999]""")
cal('Italy:Exchange', EX + "Assumption: 15/8\nNew Year's Eve: 31/12")
cal('Japan', """
New Year and bank holidays: 1-3/1
Coming of Age: 8-14/1 Mon [2000..]; 15/1 [..1999]; 16/1 Mon [..1999]
National Foundation: 11/2; 12/2 Mon
Emperor Naruhito: 23/2 [2020..]; 24/2 Mon [2020..]
Emperor Akihito: 23/12 [1989..2018]; 24/12 Mon [1989..2018]
Vernal Equinox: ve/3; ve+1/3 Mon
Greenery: 29/4; 30/4 Mon
Constitution, Nation, Children: 3-5/5; 6/5 Mon|Tue|Wed
Marine Day: 15-21/7 Mon [2003..2019,2022..]; 20/7 [1996..2002]; 21/7 Mon [1996..2002]; 23/7 [2020]; 22/7 [2021]
Mountain Day: 11/8 [2016..2019,2022..]; 12/8 Mon [2016..2019,2022..]; 10/8 [2020]; 9/8 [2021]
Respect for the Aged: 15-21/9 Mon [2003..]; 15/9 [..2002]; 16/9 Mon [..2002]
Bridge to the Equinox: ae-1/9 Tue [2003..]
Autumnal Equinox: ae/9; ae+1/9 Mon
Sports Day: 8-14/10 Mon [2000..2019,2022..]; 10/10 [..1999]; 11/10 Mon [..1999]; 24/7 [2020]; 23/7 [2021]
Culture: 3/11; 4/11 Mon
Labor Thanksgiving: 23/11; 24/11 Mon
Bank holiday: 31/12
One-shot: 10/4 [1959]; 24/2 [1989]; 12/11 [1990]; 9/6 [1993]; 30/4 [2019]; 1-2/5 [2019]; 22/10 [2019]""")
cal('Mexico', NY + LABOUR + """
Constitution: 5/2 [..2005]; 1-7/2 Mon [2006..]
Juarez: 21/3 [..2005]; 15-21/3 Mon [2006..]
Holy Thursday: E-4
Good Friday: E-3
National Day: 16/9
All Souls: 2/11
Revolution: 20/11 [..2005]; 15-21/11 Mon [2006..]
Guadalupe: 12/12
Christmas: 25/12""")
cal('NewZealand', EASTER + UKXMAS + """
New Year: 1/1; 3/1 Mon|Tue
Day after New Year: 2/1; 4/1 Mon|Tue
Anniversary: 19-25/1 Mon
Waitangi: 6/2; 7-8/2 Mon [2014..]
ANZAC: 25/4; 26-27/4 Mon [2014..]
Sovereign's Birthday: 1-7/6 Mon
Labour Day: 22-28/10 Mon
Matariki: 20/6 [2025]; 21/6 [2030,2052]; 24/6 [2022,2033,2044]; 25/6 [2027,2038,2049]; 28/6 [2024]; 29/6 [2035,2046]; 30/6 [2051]; 2/7 [2032]; 3/7 [2043,2048]; 6/7 [2029,2040]; 7/7 [2034,2045]; 10/7 [2026,2037]; 11/7 [2031,2042]; 14/7 [2023,2028]; 15/7 [2039,2050]; 18/7 [2036]; 19/7 [2041,2047]""")
cal('Norway', NY + XMAS + EASTER + LABOUR + """
Holy Thursday: E-4
Ascension: E+38
Whit Monday: E+49
Constitution: 17/5
Christmas Eve: 24/12 [2002..]""")
cal('Poland', NY + XMAS + LABOUR + """
Easter Monday: E
Corpus Christi: E+59
Epiphany: 6/1 [2011..]
Constitution: 3/5
Assumption: 15/8
All Saints: 1/11
Independence: 11/11""")
cal('Romania', NY + XMAS + LABOUR + """
Day after New Year: 2/1
Unification: 24/1
Orthodox Easter Monday: O
Orthodox Pentecost Monday: O+49
Children: 1/6 [2017..]
St. Marys: 15/8
St. Andrew: 30/11
National Day: 1/12""")
cal('Russia Russia:Settlement', """
New Year holidays: 1-2/1 [..2005]; 1-5/1 [2005..]; 6/1 [2012]
Orthodox Christmas: 7/1; 8-9/1 Mon
Fatherland: 23/2; 24-25/2 Mon
Women: 8/3; 9-10/3 Mon
Labour: 1/5; 2-3/5 Mon
Victory: 9/5; 10-11/5 Mon
Russia Day: 12/6; 13-14/6 Mon
Unity: 4/11; 5-6/11 Mon
@2017 24/2 8/5 6/11
@2018 9/3 30/4 2/5 11/6 31/12
@2019 2-3/5 9/5
@2020 30-31/3 1-3/4""")
cal('Russia:Exchange', """
Fatherland: 23/2
Women: 8/3; 9-10/3 Mon
Labour: 1/5
Victory: 9/5; 10-11/5 Mon
Russia Day: 12/6
Unity: 4/11; 5-6/11 Mon
New Year's Eve: 31/12
@2012 2/1 9/3 30/4 11/6
@2013 1-4/1 7/1
@2014 1-3/1 7/1
@2015 1-2/1 7/1
@2016 1/1 7-8/1 2-3/5 13/6 30/12
@2017 2/1 8/5
@2018 1-2/1 8/1 31/12
@2019 1-2/1 7/1 31/12
@2020 1-2/1 7/1 24/2 24/6 1/7
working: 11/3 [2012]; 28/4 [2012]; 5/5 [2012]; 12/5 [2012]; 9/6 [2012]; 20/2 [2016]; 28/4 [2018]; 9/6 [2018]; 29/12 [2018]""")
cal('Slovakia', NY + XMAS + EASTER + LABOUR + """
Epiphany: 6/1
Liberation: 8/5
Cyril and Methodius: 5/7
National Uprising: 29/8
Constitution: 1/9
Our Lady of Sorrows: 15/9
All Saints: 1/11
Freedom and Democracy: 17/11
Christmas Eve: 24/12
Exchange closings: 24-31/12 [2004,2005]""")
cal('SouthAfrica', EASTER + """
New Year: 1/1; 2/1 Mon
Human Rights: 21/3; 22/3 Mon
Freedom: 27/4; 28/4 Mon
Elections: 14/4 [2004]; 22/4 [2009]; 3/8 [2016]; 1/11 [2021]
Workers: 1/5; 2/5 Mon
Youth: 16/6; 17/6 Mon
Women: 9/8; 10/8 Mon
Heritage: 24/9; 25/9 Mon
Reconciliation: 16/12; 17/12 Mon
Christmas: 25/12
Goodwill: 26/12; 27/12 Mon; 27/12 [2022]""")
cal('Sweden', NY + XMAS + EASTER + LABOUR + """
Epiphany: 6/1
Ascension: E+38
Whit Monday: E+49 [..2004]
National Day: 6/6 [2005..]
Midsummer Eve: 19-25/6 Fri
Christmas Eve: 24/12
New Year's Eve: 31/12""")
cal('Switzerland', NY + XMAS + EASTER + LABOUR + """
Berchtoldstag: 2/1
Ascension: E+38
Whit Monday: E+49
National Day: 1/8""")
cal('Target', NY + """
Good Friday: E-3 [2000..]
Easter Monday: E [2000..]
Labour Day: 1/5 [2000..]
Christmas: 25/12
Day of Goodwill: 26/12 [2000..]
Closings: 31/12 [1998,1999,2001]""")
cal('Ukraine', """
New Year: 1/1; 2-3/1 Mon
Orthodox Christmas: 7/1; 8-9/1 Mon
Women: 8/3; 9-10/3 Mon
Orthodox Easter Monday: O
Holy Trinity: O+49
Workers' Solidarity: 1-2/5; 3/5 Mon
Victory: 9/5; 10-11/5 Mon
Constitution: 28/6
Independence: 24/8
Defender: 14/10 [2015..]""")
UK = EASTER + UKXMAS + """
New Year: 1/1; 2-3/1 Mon
Early May: 1-7/5 Mon ![1995,2020]; 8/5 [1995,2020]
Spring: last7/5 Mon ![2002,2012,2022]; 3-4/6 [2002]; 4-5/6 [2012]; 2-3/6 [2022]
Summer: last7/8 Mon
Royal occasions: 29/4 [2011]; 19/9 [2022]; 8/5 [2023]
Millennium: 31/12 [1999]"""
cal('UnitedKingdom UnitedKingdom:Settlement UnitedKingdom:Exchange UnitedKingdom:Metals', UK)

US_MLK = "Martin Luther King: 15-21/1 Mon [1983..]\n"
US_WASH = "Washington: 15-21/2 Mon [1971..]; 22/2 [..1970]; 23/2 Mon [..1970]; 21/2 Fri [..1970]\n"
US_MEM = "Memorial: last7/5 Mon [1971..]; 30/5 [..1970]; 31/5 Mon [..1970]; 29/5 Fri [..1970]\n"
US_JUN = "Juneteenth: 19/6 [2022..]; 20/6 Mon [2022..]; 18/6 Fri [2022..]\n"
US_JUL = "Independence: 4/7; 5/7 Mon; 3/7 Fri\n"
US_JULN = "Independence: 4/7; 5/7 Mon\n"
US_LAB = "Labor: 1-7/9 Mon\n"
US_COL = "Columbus: 8-14/10 Mon [1971..]\n"
US_VET = "Veterans: 11/11 [..1970,1978..]; 12/11 Mon [..1970,1978..]; 22-28/10 Mon [1971..1977]\n"
US_VETS = "Veterans (Saturday): 10/11 Fri [..1970,1978..]\n"
US_THX = "Thanksgiving: 22-28/11 Thu\n"
US_XMAS = "Christmas: 25/12; 26/12 Mon; 24/12 Fri\n"
US_XMASN = "Christmas: 25/12; 26/12 Mon\n"
US_NY = "New Year: 1/1; 2/1 Mon\n"
US_SET = US_NY + "New Year (Saturday): 31/12 Fri\n" + US_MLK + US_WASH + US_MEM + US_JUN + US_JUL + US_LAB + US_COL + US_VET + US_VETS + US_THX + US_XMAS
cal('UnitedStates UnitedStates:Settlement', US_SET)
cal('UnitedStates:Libor', US_SET + "open: 5/7 Mon [2015..]; 3/7 Fri [2015..]")
cal('UnitedStates:NYSE', US_NY + US_WASH + US_MEM + US_JUN + US_JUL + US_LAB + US_THX + US_XMAS + """
Martin Luther King: 15-21/1 Mon [1998..]
Good Friday: E-3
Presidential election: 1-7/11 Tue [..1968,1972,1976,1980]
Special closings: 5/12 [2018]; 29-30/10 [2012]; 2/1 [2007]; 11/6 [2004]; 11-14/9 [2001]; 27/4 [1994]; 27/9 [1985]; 14/7 [1977]; 25/1 [1973]; 28/12 [1972]; 21/7 [1969]; 31/3 [1969]; 10/2 [1969]; 5/7 [1968]; 9/4 [1968]; 25/11 [1963]; 29/5 [1961]; 26/12 [1958]; 24/12 [1954,1956,1965]
Paperwork crisis: 11-30/6 Wed [1968]; 1-31/7 Wed [1968]; 1-31/8 Wed [1968]; 1-30/9 Wed [1968]; 1-31/10 Wed [1968]; 1-30/11 Wed [1968]; 1-31/12 Wed [1968]""")
US_GOV = US_NY + US_MLK + US_WASH + US_MEM + US_JUN + US_JUL + US_LAB + US_COL + US_VET + US_THX + US_XMAS + """
Special closings: 5/12 [2018]; 30/10 [2012]; 11/6 [2004]
"""
cal('UnitedStates:GovernmentBond', US_GOV + "Good Friday: E-3 ![2015,2021,2023]")
cal('UnitedStates:SOFR', US_GOV + "Good Friday: E-3 ![2015,2021]")
cal('UnitedStates:NERC', US_NY + US_MEM + US_JULN + US_LAB + US_THX + US_XMASN)
cal('UnitedStates:FederalReserve', US_NY + US_MLK + US_WASH + US_MEM + US_JUN + US_JULN + US_LAB + US_COL + US_VET + US_THX + US_XMASN)

# ---- calendars with announced (lunar) days ----
cal('China', """
New Year: 1/1
Ching Ming: 4/4 [..2008]
Labor Day: 1-7/5 [..2007]
Tuen Ng: 9/6 [..2008]
Mid-Autumn: 15/9 [..2008]
National Day: 1-7/10 [..2007]
@2004 19-23/1 26-28/1
@2005 3/1 7-11/2 14-15/2
@2006 2-3/1 26-27/1 30-31/1 1-3/2
@2007 2-3/1 19-23/2 31/12
@2008 6-8/2 11-12/2 1-2/5 29-30/9 1-3/10
@2009 2/1 26-30/1 6/4 1/5 28-29/5 1-2/10 5-8/10
@2010 15-19/2 5/4 3/5 14-16/6 22-24/9 1/10 4-7/10
@2011 3/1 2-4/2 7-8/2 4-5/4 2/5 6/6 12/9 3-7/10
@2012 2-3/1 23-27/1 2-4/4 30/4 1/5 22/6 1-5/10
@2013 2-3/1 11-15/2 4-5/4 29-30/4 1/5 10-12/6 19-20/9 1-4/10 7/10
@2014 31/1 3-6/2 7/4 1-2/5 2/6 8/9 1-3/10 6-7/10
@2015 2/1 18-20/2 23-24/2 6/4 1/5 22/6 3-4/9 1-2/10 5-7/10
@2016 8-12/2 4/4 2/5 9-10/6 15-16/9 3-7/10
@2017 2/1 27/1 30-31/1 1-2/2 3-4/4 1/5 29-30/5 2-6/10
@2018 15-16/2 19-21/2 5-6/4 30/4 1/5 18/6 24/9 1-5/10 31/12
@2019 4-8/2 5/4 1-3/5 7/6 13/9 1-4/10 7/10
@2020 24/1 27-31/1 6/4 1/5 4-5/5 25-26/6 1-2/10 5-8/10
@2021 11-12/2 15-17/2 5/4 3-5/5 14/6 20-21/9 1/10 4-7/10
@2022 3/1 31/1 1-4/2 4-5/4 2-4/5 3/6 12/9 3-7/10
@2023 2/1 23-27/1 5/4 1-3/5 22-23/6 29/9 2-6/10""")
cal('HongKong', EASTER + XMAS + """
New Year: 1/1; 2/1 Mon
Labor Day: 1/5; 2/5 Mon
SAR Establishment: 1/7; 2/7 Mon
National Day: 1/10; 2/10 Mon
@2004 22-23/1 5/4 26/5 22/6 29/9 22/10
@2005 9-11/2 5/4 16/5 19/9 11/10
@2006 30-31/1 5/4 5/5 31/5 30/10
@2007 19-20/2 5/4 24/5 19/6 26/9 19/10
@2008 7-8/2 4/4 12/5 9/6 15/9 7/10
@2009 26-28/1 28/5 26/10
@2010 15-16/2 6/4 21/5 16/6 23/9
@2011 3-4/2 5/4 10/5 6/6 13/9 5/10 27/12
@2012 23-25/1 4/4 10/5 23/10
@2013 11-13/2 4/4 17/5 12/6 20/9 14/10
@2014 31/1 3/2 6/5 2/6 9/9 2/10
@2015 19-20/2 7/4 25/5 3/9 28/9 21/10
@2016 8-10/2 4/4 9/6 16/9 10/10 27/12
@2017 30-31/1 4/4 3/5 30/5 5/10
@2018 16/2 19/2 5/4 22/5 18/6 25/9 17/10
@2019 5-7/2 5/4 7/6 7/10
@2020 27-28/1 30/4 25/6 2/10 26/10
@2021 12/2 15/2 19/5 14/6 22/9 14/10
@2022 1-3/2 5/4 9/5 3/6 12/9 4/10
@2023 23-25/1 5/4 26/5 22/6 23/10
@2024 12-13/2 4/4 15/5 10/6 18/9 11/10""")
cal('India', LABOUR + """
Republic: 26/1
Good Friday: E-3
Ambedkar: 14/4
Independence: 15/8
Gandhi: 2/10
Christmas: 25/12
@2005 21/1 7/9 12/10 1/11 3/11 15/11
@2006 11/1 9/2 15/3 6/4 11/4 24-25/10
@2007 1/1 30/1 16/2 27/3 2/5 9/11 21/12
@2008 6/3 20/3 18/4 19/5 3/9 9/10 28/10 30/10 13/11 9/12
@2009 8/1 23/2 10-11/3 3/4 7/4 21/9 28/9 19/10 2/11 28/12
@2010 1/1 12/2 1/3 24/3 10/9 5/11 17/11 17/12
@2011 2/3 12/4 31/8 1/9 6/10 26-27/10 7/11 10/11 6/12
@2012 20/2 8/3 5/4 20/8 19/9 24/10 14/11 28/11
@2013 27/3 19/4 24/4 9/8 9/9 16/10 4/11 14/11
@2014 27/2 17/3 8/4 29/7 29/8 3/10 6/10 24/10 4/11 6/11
@2019 19/2 4/3 21/3 1/4 17/4 29/4 5/6 12/8 2/9 10/9 8/10 21/10 28/10 12/11
@2020 19/2 21/2 10/3 25/3 1-2/4 6/4 7/5 25/5 30/10 16/11 30/11
@2021 19/2 11/3 29/3 13/4 21/4 26/5 21/7 10/9 15/10 19/10 5/11 19/11
@2022 1/3 18/3 3/5 16/5 31/8 5/10 26/10 8/11
@2023 8/3 22/3 30/3 4/4 5/5 28/6 19/9 28/9 24/10 14/11 27/11
@2024 19/2 8/3 25/3 9/4 17/4 23/5 17/6 27/8 16/9 15/11
@2025 19/2 26/2 14/3 31/3 10/4 12/5 5/9 22/10 5/11""")
cal('Indonesia', NY + """
Good Friday: E-3
Ascension: E+38
Independence: 17/8
Christmas: 25/12
@2005 21/1 9-10/2 11/3 22/4 24/5 2/9 2-4/11 7-8/11 26/12
@2006 10/1 31/1 30/3 10/4 21/8 23-27/10
@2007 19/3 18/5 1/6 12/10 15-16/10 24/10 20/12
@2008 10-11/1 7-8/2 7/3 20/3 20/5 30/7 18/8 30/9 1-3/10 8/12 29/12 31/12
@2009 2/1 26/1 9/3 26/3 9/4 20/7 18/9 21-23/9 27/11 18/12 24/12 31/12
@2010 26/2 16/3 28/5 8-10/9 13-14/9 17/11 7/12 24/12 31/12
@2011 3/2 15/2 17/5 29/6 29-31/8 1-2/9 26/12
@2012 23/1 23/3 20-22/8 26/10 15-16/11 24/12 31/12
@2013 24/1 12/3 6/6 5-9/8 14-15/10 5/11 26/12 31/12
@2014 14/1 31/1 31/3 1/5 15/5 27/5 28-31/7 1/8 26/12 31/12""")
cal('Israel', """
weekend: Fri; Sat
Purim: P-30 [2013..2044]
Passover I and VII: P [2013..2044]; P+6 [2013..2044]; P-1 [2013..2020]; P+5 [2013..2020]
Memorial and Independence: I-1 [2013..2044]; I [2013..2044]
Shavuot: P+50 [2013..2044]; P+49 [2013..2020]
Fast Day: A [2013..2044]
Jewish New Year: R [2013..2044]; R+1 [2013..2044]; R-1 [2013..2020]
Yom Kippur: R+8 [2013..2044]; R+9 [2013..2044]
Sukkot: R+13 [2013..2044]; R+14 [2013..2044]
Simchat Torah: R+20 [2013..2044]; R+21 [2013..2044]
""")
cal('Singapore', LABOUR + """
New Year: 1/1; 2/1 Mon
Good Friday: E-3
National Day: 9/8; 10/8 Mon
Christmas: 25/12
@2004 22-23/1 2/2 2/6 11/11 15/11
@2005 21/1 9-10/2 1/11 3/11
@2006 10/1 30-31/1 12/5 24/10
@2007 2/1 19-20/2 31/5 8/11 20/12
@2008 7-8/2 1/10 28/10 8/12
@2009 26-27/1 21/9 16/11 27/11
@2010 15-16/2 28/5 10/9 5/11 17/11
@2012 23-24/1 20/8 26/10 13/11
@2013 11-12/2 24/5 8/8 15/10
@2014 31/1 13/5 28/7 6/10 23/10
@2019 5-6/2 20/5 5/6 12/8 28/10
@2020 27/1 7/5 25/5 31/7
@2021 12/2 13/5 26/5 20/7 4/11
@2022 1-2/2 2-3/5 16/5 11/7 24/10 26/12
@2023 23-24/1 2/6 29/6 13/11""")
cal('SouthKorea', NY + LABOUR + """
Independence: 1/3; 2-3/3 Mon [2022..]
Arbour: 5/4 [..2005]
Children: 5/5; 6-7/5 Mon [2014..]
Memorial: 6/6
Constitution: 17/7 [..2007]
Liberation: 15/8; 16-17/8 Mon [2021..]
Foundation: 3/10; 4-5/10 Mon [2021..]
Hangul: 9/10 [2013..]; 10-11/10 Mon [2021..]
Christmas: 25/12; 26-27/12 Mon [2023..]
@2004 21-23/1 15/4 26/5 27-29/9
@2005 8-10/2 19/9
@2006 30/1 31/5 5-6/10
@2007 19/2 24/5 24-26/9 19/12
@2008 6-8/2 9/4 12/5 15/9
@2009 26-27/1 2/10
@2010 15/2 21/5 2/6 21-23/9
@2011 2-4/2 10/5 12-13/9
@2012 23-24/1 11/4 28/5 1/10 19/12
@2013 11/2 17/5 18-20/9
@2014 30-31/1 6/5 4/6 8-10/9
@2015 18-20/2 25/5 14/8 28-29/9
@2016 8-10/2 13/4 14-16/9
@2017 27/1 30/1 3/5 9/5 4-6/10
@2018 15-16/2 22/5 13/6 24-26/9
@2019 4-6/2 12-13/9
@2020 24/1 27/1 15/4 30/4 17/8 30/9 1-2/10
@2021 11-12/2 19/5 20-22/9
@2022 31/1 1-2/2 9/3 1/6 9/9 12/9
@2023 23-24/1 29/5 28-29/9 2/10
@2024 9/2 12/2 10/4 15/5 16-18/9
@2025 28-30/1 6/5 6-8/10
@2026 16-18/2 25/5 24-25/9
@2027 8-9/2 13/5 14-16/9
@2028 26-28/1 2/5 2/10 4-5/10
@2029 12-14/2 21/5 21/9 24/9
@2030 4-5/2 9/5 11-13/9
@2031 22-24/1 28/5 30/9 1-2/10
@2032 10-12/2 17/5 20-21/9
@2033 31/1 1-2/2 6/5 7-9/9
@2034 20-21/2 25/5 26-28/9
@2035 7-9/2 15/5 17-18/9
@2036 28-30/1 6/5 6-7/10
@2037 16-17/2 22/5 23-25/9
@2038 3-5/2 11/5 13-15/9
@2039 24-26/1 2/5 4-5/10
@2040 13-14/2 18/5 20-21/9
@2041 31/1 1/2 7/5 9-11/9
@2042 21-23/1 26/5 29-30/9
@2043 9-11/2 18/5 16-18/9
@2044 29/1 1/2 6/5 4-6/10
@2045 16-17/2 24/5 25-27/9
@2046 5-7/2 14/5 14/9 17/9
@2047 25/1 28/1 2/5 4/10 7/10
@2048 13-14/2 20/5 21-23/9
@2049 1-3/2 10/5 10/9 13/9
@2050 24-25/1 30/5 29-30/9""")
cal('Taiwan', NY + LABOUR + """
Peace Memorial: 28/2
Tomb Sweeping: 5/4 ![2008,2009,2012,2017]
Double Tenth: 10/10
@2002 11-15/2
@2003 31/1 3-5/2 4/6 11/9
@2004 21-23/1 26/1 22/6 28/9
@2005 7-11/2 2/5
@2006 30-31/1 1-3/2 31/5 6/10
@2007 19-23/2 6/4 18-19/6 24-25/9
@2008 4-8/2 11/2 4/4
@2009 2/1 26-30/1 28-29/5
@2010 15-19/2 16/6 22/9
@2011 2-4/2 7/2 4/4 2/5 6/6 12/9
@2012 23-27/1 27/2 4/4 31/12
@2013 11-15/2 4/4 12/6 19-20/9
@2014 28-31/1 3-4/2 4/4 2/6 8/9
@2015 2/1 18-20/2 23/2 27/2 3/4 6/4 19/6 28/9 9/10
@2016 8-12/2 29/2 4/4 2/5 9-10/6 15-16/9
@2017 2/1 27/1 30-31/1 1/2 27/2 3-4/4 29-30/5 4/10 9/10
@2018 15-16/2 19-20/2 4/4 6/4 18/6 24/9 31/12
@2019 4-8/2 1/3 4/4 7/6 13/9 11/10
@2020 23-24/1 27-29/1 2-3/4 25-26/6 1-2/10 9/10
@2021 10-12/2 15-16/2 1/3 2/4 30/4 14/6 20-21/9 11/10 31/12
@2022 31/1 1-4/2 4/4 2/5 3/6 9/9
@2023 2/1 20/1 23-27/1 27/2 3-4/4 22-23/6 29/9 9/10
@2024 8-9/2 12-14/2 4/4 10/6 17/9""")
cal('Thailand', """
New Year: 1/1; 3/1 Mon; 2/1 Mon
Chakri: 6/4; 7-8/4 Mon
Songkran: 13-15/4; 16/4 Mon|Tue
Labor Day: 1/5; 2-3/5 Mon
King's Birthday: 28/7 [2017..]; 29-30/7 Mon [2017..]
Queen's Birthday: 12/8; 13-14/8 Mon
Bhumibol Memorial: 13/10 [2017..]; 14-15/10 Mon [2017..]
Bhumibol Birthday: 5/12; 6-7/12 Mon
Constitution: 10/12; 11-12/12 Mon
New Year's Eve: 31/12
@2000 21/2 5/5 17/5 17/7 23/10
@2001 8/2 7-8/5 6/7 23/10
@2005 23/2 5/5 23/5 1/7 22/7 24/10
@2006 13/2 19/4 5/5 12/5 12-13/6 11/7 23/10
@2007 5/3 7/5 31/5 30/7 23/10 24/12
@2008 21/2 5/5 19/5 1/7 17/7 23/10
@2009 2/1 9/2 5/5 8/5 1/7 6-7/7 23/10
@2010 1/3 5/5 20-21/5 28/5 1/7 26/7 13/8 25/10
@2011 18/2 5/5 16-17/5 1/7 15/7 24/10
@2012 3/1 7/3 9/4 7/5 4/6 2/8 23/10
@2013 25/2 6/5 24/5 1/7 22/7 23/10 30/12
@2014 14/2 5/5 13/5 1/7 11/7 11/8 23/10
@2015 2/1 4/3 4-5/5 1/6 1/7 30/7 23/10
@2016 22/2 5-6/5 20/5 1/7 18-19/7 24/10
@2017 13/2 10/5 10/7 23/10 26/10
@2018 1/3 29/5 27/7 23/10""")
cal('Turkey', NY + LABOUR + """
Sovereignty: 23/4
Youth: 19/5
Democracy: 15/7 [2017..]
Victory: 30/8
Republic: 29/10
@2004 2-4/2 15-16/11
@2005 19-21/1 2-4/11
@2006 10-13/1 23-25/10
@2007 2-3/1 12/10 20-21/12
@2008 30/9 1-2/10 8-11/12
@2009 21-22/9 27/11 30/11
@2010 9-10/9 16-19/11
@2011 9-11/11
@2012 20-21/8 24-26/10
@2013 7-9/8 14-18/10 28/10
@2014 28-30/7 6-7/10
@2015 17/7 26-27/10
@2016 5-7/7 12-15/9
@2017 26-27/6 1/9 4/9
@2018 15/6 21-24/8
@2019 4-6/6 12-14/8
@2020 25-26/5 31/7 3/8
@2021 13-14/5 20-23/7
@2022 2-4/5 11-12/7
@2023 21/4 28-30/6
@2024 10-12/4 17-19/6
@2025 31/3 1-2/4 6/6 9/6
@2026 20/3 26-29/5
@2027 10-12/3 17-18/5
@2028 28-29/2 4-5/5
@2029 15-16/2 24-26/4
@2030 5-7/2 15-16/4
@2031 27/1 2-4/4
@2032 14-16/1 22-24/3
@2033 3-5/1 11/3 14/3 23/12
@2034 28/2 1-3/3 12-14/12""")
