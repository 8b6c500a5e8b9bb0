"""C28: Yahoo quotes, served by a stub for all http requests."""
from __future__ import print_function, division
import datetime
import os
import StringIO
import sys
import urllib
import urllib2
import urlparse

import numpy as np

from core import Registry

import la
from la.data.yahoo import quotes
from la.external.matplotlib import quotes_historical_yahoo

R = Registry('C28')

ITEMS = ['open', 'close', 'high', 'low', 'volume', 'adjclose']


class Server(urllib2.BaseHandler):
    "Answers every http request with the table of the ticker."
    handler_order = 1

    def __init__(self):
        self.tables = {}
        self.requests = []

    def http_open(self, req):
        url = req.get_full_url()
        q = urlparse.parse_qs(urlparse.urlparse(url).query)
        self.requests.append(dict([(k, v[0]) for k, v in q.items()]))
        text = self.tables[q['s'][0]]
        r = urllib.addinfourl(StringIO.StringIO(text), {}, url, 200)
        r.msg = 'OK'
        return r

    https_open = http_open


def price(c):
    k = c.rng.random()
    if k < .6:
        return '%.2f' % (c.rng.randint(1, 99999) / 100)
    if k < .8:
        return '%d' % c.rng.randint(1, 999)
    return repr(c.rng.random() * 1000 + .01)


def junk(c, day):
    "A line that is not one of a table: some other number of fields."
    return c.choice(['', '%s,1,2,3,4,5' % day, '%s,1,2,3,4,5,6,7' % day, '#',
                     'Date', ',,,,,', '%s,9.5 DIVIDEND' % day])


def table(c, days, start):
    "(text, {date: [open, close, high, low, volume, adjclose]})"
    eol = c.choice(['\n', '\n', '\r\n'])
    used = c.rng.sample(range(days), c.rng.randint(1, days))
    how = c.rng.random()
    if how < .5:
        used.sort(reverse=True)
    elif how < .7:
        used.sort()
    rows = {}
    first = 'Date,Open,High,Low,Close,Volume,Adj Close'
    if c.chance(.2):
        first = c.choice(['', 'nothing', '2001-05-05,1,2,3,4,5,6'])
    lines = [first]
    for k in used:
        day = start + datetime.timedelta(k)
        o, h, l, cl = [price(c) for i in range(4)]
        v = str(c.rng.randint(0, 10 ** c.choice([3, 6, 11])))
        a = cl if c.chance(.3) else price(c)
        rows[day] = [float(o), float(cl), float(h), float(l), float(int(v)),
                     float(a)]
        fmt = '%d-%02d-%02d' if c.chance(.8) else '%d-%d-%d'
        lines.append(','.join([fmt % (day.year, day.month, day.day), o, h, l,
                               cl, v, a]))
        if c.chance(.1):
            lines.append(junk(c, day))
    text = eol.join(lines) + (eol if c.chance(.8) else '')
    return text, rows, [start + datetime.timedelta(k) for k in used]


def names(c):
    n = c.choice([1, 1, 2, 2, 3, 4, 5])
    out = []
    while len(out) < n:
        t = ''.join([c.choice('abcdefgXYZ') for i in range(c.choice([1, 2, 4]))])
        t += c.choice(['', '', '.l', '-b'])
        if t not in out:
            out.append(t)
    return out


def day(c, lo=1900, hi=2030):
    return datetime.date(c.rng.randint(lo, hi), c.rng.randint(1, 12),
                         c.rng.randint(1, 28))


def dates_arg(c, d):
    "A date in one of the forms that are accepted."
    k = c.rng.randint(0, 3)
    if k == 0:
        return (d.year, d.month, d.day)
    if k == 1:
        return [d.year, d.month, d.day]
    if k == 2:
        return datetime.datetime(d.year, d.month, d.day, 13, 5)
    return d


def serve(c, tickers):
    s = Server()
    start = day(c, 1950, 2015)
    days = c.choice([1, 3, 6, 20, 60])
    want = {}
    raw = {}
    for t in tickers:
        u = t.upper()
        if u not in s.tables:
            s.tables[u], raw[u], ds = table(c, days, start)
            raw[u, 'dates'] = ds
        want[t] = raw[u]
    urllib2.install_opener(urllib2.build_opener(urllib2.ProxyHandler({}), s))
    return s, want, raw


def asked(c, s, tickers, d1, d2):
    c.check([q.get('s') for q in s.requests] == [t.upper() for t in tickers],
            'asked for %r, tickers are %r' % (s.requests, tickers))
    for q in s.requests:
        got = tuple([int(q[k]) for k in 'abcdef'])
        ok = [(d1.month - 1, d1.day, d1.year, e.month - 1, e.day, e.year)
              for e in d2]
        c.check(got in ok, 'dates asked for are %r, not %r' % (got, ok))


def today():
    return datetime.date.today() + datetime.timedelta(10)


@R.scenario(500)
def all_quotes(c):
    tickers = names(c)
    s, want, raw = serve(c, tickers)
    args, kw = [], {}
    d1 = datetime.date(1900, 1, 1)
    d2 = [today()]
    if c.chance(.6):
        d1 = day(c)
        args.append(dates_arg(c, d1))
        if c.chance(.7):
            d2 = [day(c)]
            args.append(dates_arg(c, d2[0]))
    elif c.chance(.5):
        d2 = [day(c)]
        kw['date2'] = dates_arg(c, d2[0])
    adjust = c.chance(.6)
    if not adjust or c.chance(.3):
        kw['adjust'] = adjust
    seq = tuple(tickers) if c.chance(.3) else tickers
    if c.chance(.1):
        kw['verbose'] = True
    old = sys.stdout
    sys.stdout = StringIO.StringIO()
    try:
        r = c.call(quotes, seq, *args, **kw)
    finally:
        text = sys.stdout.getvalue()
        sys.stdout = old
    if kw.get('verbose'):
        c.check(all([t in text for t in tickers]), 'verbose: %r' % text)
    else:
        c.check(text == '', 'printed %r' % text)
    if len(d2) == 1 and len(args) < 2 and 'date2' not in kw:
        d2.append(today())      # Midnight may have passed
    asked(c, s, tickers, d1, d2)
    dates = sorted(set([d for t in tickers for d in want[t]]))
    c.stats.bump('prices', sum([5 * len(want[t]) for t in tickers]))
    order = tickers if len(tickers) == 1 else sorted(tickers)
    c.check(type(r) is la.larry and r.ndim == 3, 'not a 3d larry')
    c.check(sorted(r.label[0]) == sorted(tickers), 'tickers %r' % r.label[0])
    order = r.label[0]
    items = ITEMS[:-1] if adjust else ITEMS
    x = np.empty((len(order), len(items), len(dates)))
    x.fill(np.nan)
    for i, t in enumerate(order):
        for d, row in want[t].items():
            k = dates.index(d)
            o, cl, h, l, v, a = row
            if adjust:
                f = a / cl
                row = [o * f, a, h * f, l * f, v]
            for j, z in enumerate(row):
                x[i, j, k] = z
    c.same(r, [list(order), items, dates], x, 'quotes',
           rtol=1e-13 if adjust else 0, types_=True)


@R.scenario(200)
def one_ticker(c):
    tickers = names(c)[:1]
    s, want, raw = serve(c, tickers)
    d1, d2 = day(c), day(c)
    r = c.call(quotes_historical_yahoo, tickers[0], dates_arg(c, d1),
               dates_arg(c, d2))
    asked(c, s, tickers, d1, [d2])
    data, dates = r
    c.check(dates == raw[tickers[0].upper(), 'dates'],
            'dates %r' % (dates,))
    c.check(all([type(d) is datetime.date for d in dates]), 'type of dates')
    rows = [tuple(want[tickers[0]][d]) for d in dates]
    c.check([tuple(t) for t in data] == rows, 'data %r not %r' % (data, rows))
    c.substance += len(data)


@R.scenario(20)
def no_lines(c):
    "A table without a single line: nothing to return."
    s, want, raw = serve(c, ['x'])
    s.tables['X'] = c.choice(['', 'Date,Open\n', 'a\nb,c\n\n'])
    r = c.call(quotes_historical_yahoo, 'x', day(c), day(c))
    c.check(r is None, 'returned %r' % (r,))
    c.substance += 1
