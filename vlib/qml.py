"""Generator of QuakeML documents (as trees, so that the expected content is
known independently of any parser) and their serialisation in varying
notation."""
import datetime as dt
from xml.sax.saxutils import escape, quoteattr

from vlib.util import chance, choice

NS = 'http://quakeml.org/xmlns/bed/1.2'
MTYPES = ['ML', 'Mw', 'mb', 'MLv', 'Mw(mB)', 'M', 'mb_Lg', 'Ms & x', 'mü',
          'mB', 'Ml']
WORDS = ['x', 'a & b', '<tag>', 'ünïcode', '5 km S of Y', ']]', '"q"', "it's",
         '日本', 'two  blanks', '&lt;']
QUALITY = {
    'associatedPhaseCount': 'associatedphasecount',
    'usedPhaseCount': 'usedphasecount',
    'associatedStationCount': 'associatedstationcount',
    'usedStationCount': 'usedstationcount',
    'depthPhaseCount': 'depthphasecount', 'standardError': 'standarderror',
    'azimuthalGap': 'azimuthalgap',
    'secondaryAzimuthalGap': 'secondaryazimuthalgap',
    'maximumDistance': 'maximumdistance',
    'minimumDistance': 'minimumdistance',
    'medianDistance': 'mediandistance'}
REAL = ['uncertainty', 'lowerUncertainty', 'upperUncertainty',
        'confidenceLevel']


class El:
    def __init__(self, tag, text=None, kids=(), **attrs):
        self.tag, self.text, self.attrs = tag, text, attrs
        self.kids = list(kids)


def number(rng, lo, hi):
    v = float(rng.uniform(lo, hi))
    return choice(rng, ['%r' % v, '%.1f' % v, '%.4f' % v, '%d' % v, '%.2e' % v])


def stamp(rng):
    d = dt.datetime(int(rng.integers(1950, 2025)), int(rng.integers(1, 13)),
                    int(rng.integers(1, 29)), int(rng.integers(0, 24)),
                    int(rng.integers(0, 60)), int(rng.integers(0, 60)),
                    int(rng.integers(0, 10 ** 6)))
    s = d.isoformat()
    return choice(rng, [s, s + 'Z', d.strftime('%Y-%m-%dT%H:%M:%S'),
                        d.strftime('%Y-%m-%dT%H:%M:%SZ')])


def real(rng, tag, lo, hi, time=False):
    kids = [El('value', stamp(rng) if time else number(rng, lo, hi))]
    for r in REAL:
        if chance(rng, .25):
            kids.append(El(r, number(rng, 0, 5)))
    shuffle(rng, kids)
    return El(tag, kids=kids)


def shuffle(rng, kids):
    kids[:] = [kids[j] for j in rng.permutation(len(kids))]


def info(rng, version=None, time=None):
    kids = [El('agencyID', choice(rng, WORDS))]
    if chance(rng, .5):
        kids.append(El('author', choice(rng, WORDS)))
    if time is not None:
        kids.append(El('creationTime', time))
    if version is not None:
        kids.append(El('version', version))
    shuffle(rng, kids)
    return El('creationInfo', kids=kids)


def comment(rng):
    return El('comment', kids=[El('text', choice(rng, WORDS)),
                               info(rng, time=stamp(rng))])


def near(rng, t):
    """another stamp, shortly before or after the stamp t"""
    d = dt.datetime.strptime(t[:19], '%Y-%m-%dT%H:%M:%S') + dt.timedelta(
        seconds=int(choice(rng, [0, 1, -1, 30, -90, 3600, -7200, 86400])))
    return d.isoformat() + choice(rng, ['', 'Z', '.25Z'])


def event(rng, j, rich=True, local=False):
    """(element, description) of one event; `local`: the ids of origins and
    magnitudes are only unique within the event"""
    k = 0 if local else j
    d = {'id': 'smi:e/%d' % j, 'type': None, 'pref_o': None, 'pref_m': None,
         'origins': [], 'magnitudes': []}
    kids = []
    # IDs may be almost the same: case, prefixes, suffixes, leading zeros
    ident = choice(rng, ['smi:%s/%d/%d'.__mod__] * 4 + [
        lambda x: 'smi:%s/%d/' % x[:2] + format(x[2], '07b').translate(
            {48: 'a', 49: 'A'}),
        lambda x: 'smi:%s/%d/' % x[:2] + '1' * (x[2] + 1),
        lambda x: 'smi:%s/%d/' % x[:2] + '0' * x[2] + '1',
        lambda x: 'quakeml:' * max(3 - x[2], 0) + 'smi:%s/%d/%d' % (
            *x[:2], max(x[2], 3)),
        lambda x: 'smi:%s/%d/x%sx' % (*x[:2], '/' * x[2])])
    if chance(rng, .8):
        d['type'] = choice(rng, ['earthquake', 'explosion', 'a & <b>',
                                'two  blanks'])
        kids.append(El('type', d['type']))
    for a in range(int(rng.integers(0, 4)) if chance(rng, .5) else 1):
        o = {'id': ident(('o', k, a)), 'val': {}, 'quality': {}}
        ok = []
        for tag, col, lo, hi in [('time', 'time', 0, 0),
                                 ('latitude', 'latitude', -90, 90),
                                 ('longitude', 'longitude', -180, 180),
                                 ('depth', 'depth', -3, 700)]:
            if chance(rng, .92):
                e = real(rng, tag, lo, hi, tag == 'time')
                ok.append(e)
                for x in e.kids:
                    o['val'][col if x.tag == 'value' else
                             col + '_' + x.tag] = x.text
        if chance(rng, .5):
            o['val']['evaluationmode'] = choice(rng, ['manual', 'automatic'])
            ok.append(El('evaluationMode', o['val']['evaluationmode']))
        if chance(rng, .5):
            ok.append(El('evaluationStatus', 'final'))
        if chance(rng, .6):
            q = []
            for tag, col in QUALITY.items():
                if chance(rng, .6):
                    o['quality'][col] = number(rng, 0, 90)
                    q.append(El(tag, o['quality'][col]))
            shuffle(rng, q)
            ok.append(El('quality', kids=q))
        if rich and chance(rng, .4):    # things which are not asked for
            ok.append(comment(rng))
            ok.append(El('originUncertainty', kids=[
                El('horizontalUncertainty', '12'),
                El('preferredDescription', 'x'),
                El('confidenceLevel', '50')]))
            for b in range(int(rng.integers(0, 3))):
                ok.append(El('arrival', kids=[
                    El('pickID', 'smi:p/%d' % b), El('phase', 'P'),
                    El('time', '77'), El('type', 'no'),
                    El('distance', '0.1')], publicID='smi:a/%d' % b))
            ok.append(El('type', 'hypocenter'))
            ok.append(info(rng, time=stamp(rng)))
            ok.append(El('compositeTime', kids=[
                real(rng, 'year', 1900, 2000), real(rng, 'second', 0, 60)]))
        shuffle(rng, ok)
        kids.append(El('origin', kids=ok, publicID=o['id']))
        d['origins'].append(o)
    n_m = int(rng.integers(0, 6)) if chance(rng, .6) else 1
    if chance(rng, .01):
        n_m = int(rng.integers(30, 80))
    versions, ctimes = chance(rng, .4), chance(rng, .5)
    same_day = stamp(rng) if chance(rng, .6) else None
    pool = [choice(rng, MTYPES) for _ in range(int(rng.integers(1, 4)))]
    if chance(rng, .15):    # types which only differ in their case
        pool = choice(rng, [['mb', 'mB'], ['ML', 'Ml', 'MLv']])
    for a in range(n_m):
        g = {'id': ident(('m', k, a)), 'val': {}, 'type': None,
             'version': None, 'ctime': None}
        mk = []
        if chance(rng, .97):
            e = real(rng, 'mag', -2, 9)
            mk.append(e)
            for x in e.kids:
                g['val']['' if x.tag == 'value' else '_' + x.tag] = x.text
        if chance(rng, .93):
            g['type'] = choice(rng, pool)
            mk.append(El('type', g['type']))
        v = choice(rng, ['1', '2', '10', '1.5', '3']) if versions and \
            chance(rng, .9) else None
        t = None
        if ctimes and chance(rng, .9):
            t = near(rng, same_day) if same_day else stamp(rng)
        if v is not None or t is not None or chance(rng, .3):
            g['version'], g['ctime'] = v, t
            mk.append(info(rng, v, t))
        if rich and chance(rng, .4):
            mk += [El('stationCount', '12'), El('azimuthalGap', '100'),
                   El('originID', 'smi:o/%d/0' % j),
                   El('stationMagnitudeContribution', kids=[
                       El('stationMagnitudeID', 'smi:s'), El('weight', '1')])]
            mk.append(comment(rng))
        shuffle(rng, mk)
        kids.append(El('magnitude', kids=mk, publicID=g['id']))
        d['magnitudes'].append(g)
    if d['origins'] and chance(rng, .9):
        d['pref_o'] = choice(rng, d['origins'])['id']
    elif chance(rng, .3):
        d['pref_o'] = choice(rng, ['smi:o/unknown', 'smi:o/%d/0' % (j - 1)])
        if any(o['id'] == d['pref_o'] for o in d['origins']):
            d['pref_o'] = 'smi:o/unknown'
    if d['magnitudes'] and chance(rng, .9):
        d['pref_m'] = choice(rng, d['magnitudes'])['id']
    elif chance(rng, .3):
        d['pref_m'] = choice(rng, ['smi:m/unknown', 'smi:m/%d/0' % (j - 1)])
        if any(g['id'] == d['pref_m'] for g in d['magnitudes']):
            d['pref_m'] = 'smi:m/unknown'
    if d['pref_o']:
        kids.append(El('preferredOriginID', d['pref_o']))
    if d['pref_m']:
        kids.append(El('preferredMagnitudeID', d['pref_m']))
    if rich and chance(rng, .5):
        kids.append(El('description', kids=[El('text', choice(rng, WORDS)),
                                            El('type', 'region name')]))
        kids.append(info(rng, '9', stamp(rng)))
        kids.append(El('typeCertainty', 'known'))
        kids.append(comment(rng))
        for b in range(int(rng.integers(0, 3))):
            kids.append(El('pick', kids=[
                real(rng, 'time', 0, 0, True), El('phaseHint', 'P'),
                El('evaluationMode', 'manual'), El('type', 'x')],
                publicID='smi:p/%d' % b))
            kids.append(El('stationMagnitude', kids=[
                real(rng, 'mag', 0, 5), El('type', 'ML')],
                publicID='smi:s/%d' % b))
            kids.append(El('amplitude', kids=[
                El('type', 'A'), real(rng, 'genericAmplitude', 0, 5)],
                publicID='smi:am/%d' % b))
        if chance(rng, .5):
            kids.append(El('focalMechanism', kids=[
                El('triggeringOriginID', 'smi:o/x'),
                El('momentTensor', kids=[El('derivedOriginID', 'smi:o/y'),
                                         real(rng, 'scalarMoment', 0, 1)],
                   publicID='smi:mt'), El('evaluationMode', 'automatic')],
                publicID='smi:fm'))
    shuffle(rng, kids)
    return El('event', kids=kids, publicID=d['id']), d


def document(rng, n, rich=True):
    """(root element, descriptions)"""
    local = chance(rng, .15)
    pairs = [event(rng, j, rich, local) for j in range(n)]
    kids = [p[0] for p in pairs]
    if rich and chance(rng, .4):
        kids.insert(int(rng.integers(0, n + 1)), info(rng))
        kids.append(comment(rng))
        kids.insert(0, El('description', 'type of things'))
    root = El('q:quakeml', kids=[El('eventParameters', kids=kids,
                                    publicID='smi:ep')],
              xmlns=NS, **{'xmlns:q': 'http://quakeml.org/xmlns/quakeml/1.2'})
    return root, [p[1] for p in pairs]


class Writer:
    """serialises with random, but equivalent, notation"""

    def __init__(self, rng, plain=False, pad=0):
        self.rng, self.plain, self.pad = rng, plain, pad
        self.indent = chance(rng, .7)
        self.cdata = not plain and chance(rng, .3)
        self.comments = not plain and chance(rng, .3)
        self.space = not plain and chance(rng, .3)
        self.refs = not plain and chance(rng, .3)

    def text(self, t):
        r = self.rng
        if self.cdata and chance(r, .3) and ']]>' not in t:
            k = int(r.integers(0, len(t) + 1))
            s = escape(t[:k]) + '<![CDATA[' + t[k:] + ']]>'
        elif self.refs and chance(r, .3):
            s = ''.join('&#%d;' % ord(c) if chance(r, .5) else escape(c)
                        for c in t)
        elif self.comments and chance(r, .2):
            k = int(r.integers(0, len(t) + 1))
            s = escape(t[:k]) + '<!-- note -->' + escape(t[k:])
        else:
            s = escape(t)
        if self.space and chance(r, .4):
            s = choice(r, [' ', '\n   ', '\t']) + s + choice(r, ['', ' ', '\n'])
        return s

    def el(self, e, depth=0):
        nl = '\n' + '  ' * depth if self.indent else ''
        out = [nl, '<', e.tag]
        for k, v in e.attrs.items():
            out.append(' %s=%s' % (k, quoteattr(v)))
        if e.text is None and not e.kids:
            out.append('/>' if not self.plain and chance(self.rng, .5)
                       else '></%s>' % e.tag)
            return ''.join(out)
        out.append('>')
        if e.text is not None:
            out.append(self.text(e.text))
        for k in e.kids:
            if self.comments and chance(self.rng, .05):
                out.append('<!-- <event> & <type>x</type> -->')
            if self.pad and k.tag in ('event', 'origin', 'magnitude'):
                out.append(' ' * int(self.rng.integers(0, self.pad)))
            out.append(self.el(k, depth + 1))
        if e.kids and self.indent:
            out.append('\n' + '  ' * depth)
        out.append('</%s>' % e.tag)
        return ''.join(out)

    def doc(self, root, encoding='UTF-8', declared=True):
        s = self.el(root).lstrip('\n')
        if declared:
            s = '<?xml version="1.0" encoding="%s"?>\n' % encoding + s
        return s + choice(self.rng, ['', '\n', '\n\n  '])


def creation_key(g, versions, times):
    return (float(g['version']) if versions else 0,
            dt.datetime.strptime(g['ctime'][:19], '%Y-%m-%dT%H:%M:%S')
            if times else 0)


def expected(d, all_magnitudes, quality):
    """(fixed column values, alternatives for tied secondary magnitudes)"""
    e = {'eventID': d['id'], 'event_type': d['type']}
    o = next((o for o in d['origins'] if o['id'] == d['pref_o']), None)
    for k in ['time', 'latitude', 'longitude', 'depth', 'evaluationmode']:
        e[k] = None
    if o is not None:
        e.update(o['val'])
        e['originID'] = o['id']
        if quality:
            e.update(o['quality'])
    g = next((g for g in d['magnitudes'] if g['id'] == d['pref_m']), None)
    e['magnitude'] = e['magnitude_type'] = None
    if g is not None:
        e.update({'magnitude' + k: v for k, v in g['val'].items()})
        e['magnitude_type'] = g['type']
        e['magnitudeID'] = g['id']
    alt = {}
    if all_magnitudes:
        ptype = g['type'] if g is not None else None
        for t in {x['type'] for x in d['magnitudes']} - {None}:
            same = [x for x in d['magnitudes'] if x['type'] == t]
            if t == ptype:
                best = [g]
            else:
                v = all(x['version'] is not None for x in same)
                c = all(x['ctime'] is not None for x in same)
                top = max(creation_key(x, v, c) for x in same)
                best = [x for x in same if creation_key(x, v, c) == top]
            alt[t] = []
            for x in best:
                a = {'magnitude_%s%s' % (t, k): v
                     for k, v in x['val'].items()}
                a['magnitude_%s_magnitudeID' % t] = x['id']
                alt[t].append(a)
    return e, alt
