"""The properties, the specification modules that decide them, and which
clauses of a rejected step belong to which property."""

COMMON_ASSUMPTIONS = [
    'lxml, cssselect, tinycss2 and Python behave as they do in this sandbox',
    'TLC 1.8.0 evaluates the specification correctly',
]


def clauses(*names):
    """Rejections that show in one of these recorded clauses."""
    ns = set(names)

    def owns(rej):
        return bool(ns & set(rej['fields']))
    return owns


def everything(rej):
    return True


def ops(*names):
    ns = set(names)

    def owns(rej):
        return rej['op'].get('name') in ns
    return owns


def refused(rej):
    w = rej['want'].get('out', {})
    return isinstance(w, dict) and w.get('r') != 'ok'


def both(a, b):
    return lambda rej: a(rej) and b(rej)


PROPS = {}


def prop(pid, **kw):
    PROPS[pid] = kw


# ------------------------------------------------------------------ the DOM
def dom_model(starts, depth):
    return dict(module='DomModel', starts=starts, start='DomStart',
                ops='DomModelOps', step='DomStep', obs='DomObs', depth=depth,
                inv=('TreeInv', 'OwnedInv'),
                prop=('RefusedUnchanged', 'KeepsPlace'))


DOM = dict(sub='dom',
           trace=dict(module='DomTrace', start='DomStart', step='DomStep',
                      obs='DomObs'),
           models={'quick': [dom_model('DomStarts', 2)],
                   'thorough': [dom_model('DomStarts', 4),
                                dom_model('DomStartsBig', 2)]})

prop('D01', owns=lambda r: set(r['fields']) != {'own'}, **DOM)
prop('D02', owns=refused, **DOM)
prop('D03', owns=clauses('own'), **DOM)


# --------------------------------------------------- attributes of elements
def attrs_model(starts, depth):
    return dict(module='AttrsModel', starts=starts, start='AttrsStart',
                ops='AttrsModelOps', step='AttrsStep', obs='AttrsObs',
                depth=depth, inv=('AttrsModelInv',), prop=('RefusedSame',))


ATTRS = dict(sub='attrs',
             trace=dict(module='AttrsTrace', start='AttrsStart',
                        step='AttrsStep', obs='AttrsObs'),
             models={'quick': [attrs_model('AttrsStarts', 2)],
                     'thorough': [attrs_model('AttrsStartsBig', 3)]})

prop('D04', owns=everything, **ATTRS)
prop('D05', owns=everything, focus='tokens', **ATTRS)
prop('D06', owns=everything, focus='data', **ATTRS)


# ------------------------------------------------- matrices and rectangles
GEOM = dict(sub='geom',
            trace=dict(module='GeomTrace', start='GeomStart',
                       step='GeomStep', obs='GeomObs'))


def geom_model(ops_, depth):
    return dict(module='GeomModel', starts='GeomStarts', start='GeomStart',
                ops=ops_, step='GeomStep', obs='GeomObs', depth=depth,
                inv=('TwoD', 'Boxes'))


prop('G16', owns=lambda r: r['op']['name'] == 'm', focus='m',
     models={'quick': [geom_model('MatModelOps', 2)],
             'thorough': [geom_model('MatModelOps', 3)]}, **GEOM)
prop('G17', owns=lambda r: r['op']['name'] == 'r', focus='r',
     models={'quick': [geom_model('GeomModelOps', 3)],
             'thorough': [geom_model('GeomModelOps', 3)]}, **GEOM)


# ------------------------------------------------------- transform functions
def xform_model(ops_, depth):
    return dict(module='XformModel', starts='XformStarts', start='XformStart',
                ops=ops_, step='XformStep', obs='XformObs', depth=depth,
                inv=('AttrInv', 'Items'), prop=('ACRefused', 'ACSameTotal'))


prop('G18', sub='xform', owns=everything,
     trace=dict(module='XformTrace', start='XformStart', step='XformStep',
                obs='XformObs'),
     models={'quick': [xform_model('XformWideOps', 1),
                       xform_model('XformModelOps', 2)],
             'thorough': [xform_model('XformWideOps', 1),
                          xform_model('XformModelOps', 3)]})


# --------------------------------------------------------- finding elements
def find_model(depth):
    return dict(module='FindModel', starts='FindStarts', start='FindStart',
                ops='FindModelOps', step='FindStep', obs='FindObs',
                depth=depth, inv=('FindModelInv',), prop=('QueryPure',))


prop('D07', sub='find', owns=everything,
     trace=dict(module='FindTrace', start='FindStart', step='FindStep',
                obs='FindObs'),
     models={'quick': [find_model(2)], 'thorough': [find_model(3)]})


# ------------------------------------------------------------------ path data
def path_model(ops_, depth):
    return dict(module='PathModel', starts='PathStarts', start='PathStart',
                ops=ops_, step='PathStep', obs='PathObs', depth=depth,
                inv=('ModelIdem', 'ModelXf'), prop=('ACPure',))


PATH = dict(sub='path',
            trace=dict(module='PathTrace', start='PathStart',
                       step='PathStep', obs='PathObs'),
            models={'quick': [path_model('PathModelOps', 2)],
                    'thorough': [path_model('PathModelOps', 2),
                                 path_model('PathPushOps', 3)]})

prop('P19', focus='parse', owns=ops('parse', 'set', 'push', 'roundtrip',
                                    'text', 'ends'), **PATH)
prop('P20', focus='norm', owns=ops('normalize', 'drawing'), **PATH)
prop('P21', focus='xf', owns=ops('transform', 'box', 'length'), **PATH)


# ------------------------------------- lengths, viewports and basic shapes
def lay_model(starts, ops_, depth, inv, prop_=('ACAsk',)):
    return dict(module='LayModel', starts=starts, start='LayStart', ops=ops_,
                step='LayStep', obs='LayObs', depth=depth, inv=inv,
                prop=prop_)


LAY = dict(sub='lay', trace=dict(module='LayTrace', start='LayStart',
                                 step='LayStep', obs='LayObs'))
LEN = (('LenInv',), ('ACAsk', 'ACRefusedLen'))
EDIT = ('set', 'rem')

prop('L22', focus='len', owns=ops('mk', 'new', 'reset', 'bin', 'sc', 'conv',
                                  'val', 'cmp', 'text', *EDIT),
     models={t: [lay_model('LayLenStarts', 'LayLenOps', 2, *LEN),
                 lay_model('LayLenStarts', 'LayPairOps', d, *LEN)]
             for t, d in (('quick', 2), ('thorough', 3))}, **LAY)
prop('V23', focus='view', owns=ops('view', 'box4', 'par', 'partext', 'ctm',
                                   'vtm', 'zoom', 'zoomed', 'resize', *EDIT),
     models={t: [lay_model('LayVpStarts', 'LayVpOps', d,
                           ('VtmInv', 'CtmInv'))]
             for t, d in (('quick', 2), ('thorough', 2))}, **LAY)
prop('S24', focus='shape', owns=ops('geom', 'path', 'bbox', 'length',
                                    'points', 'getpoints', *EDIT),
     models={t: [lay_model('LayShapeStarts', 'LayShapeOps', d,
                           ('ShapeInv',))]
             for t, d in (('quick', 2), ('thorough', 2))}, **LAY)


# ------------------------------------------------------- declaration blocks
def css_model(starts, ops_, depth):
    return dict(module='CssModel', starts=starts, start='CssStart', ops=ops_,
                step='CssStep', obs='CssObs', depth=depth,
                inv=('ModelRound', 'ModelUnique'),
                prop=('ACFrame', 'ACSetRead'))


def css_models(kind):
    return {t: [css_model(kind + 'Starts', 'CssWideOps', 1),
                css_model(kind + 'Starts', 'CssPrioOps', 1)]
            + [css_model(kind + 'Empty', o, d)
               for o in ('CssFontOps', 'CssMaskOps', 'CssTextOps')]
            for t, d in (('quick', 2), ('thorough', 3))}


CSS = dict(sub='css', trace=dict(module='CssTrace', start='CssStart',
                                 step='CssStep', obs='CssObs'))
prop('C10', owns=everything, models=css_models('Block'), **CSS)
prop('D09', owns=everything, focus='inline', models=css_models('Inline'),
     **CSS)


# --------------------------------------------------------------- style sheets
def sheet_model(ops_, depth):
    return dict(module='SheetModel', starts='SheetStarts', start='SheetStart',
                ops=ops_, step='SheetStep', obs='SheetObs', depth=depth,
                inv=('ModelDistinct', 'ModelKnown'),
                prop=('ACFresh', 'ACOrder', 'ACApart'))


prop('C11', sub='sheet', owns=everything,
     trace=dict(module='SheetTrace', start='SheetStart', step='SheetStep',
                obs='SheetObs'),
     models={t: [sheet_model('RuleOps', 2), sheet_model('DeclOps', d + 1),
                 sheet_model('MediaOps', d)]
             for t, d in (('quick', 2), ('thorough', 3))})


# -------------------------------------------------------------- media queries
prop('C13', sub='media', owns=everything,
     trace=dict(module='MediaTrace', start='MediaStart', step='MediaStep',
                obs='MediaObs'),
     models={t: [dict(module='MediaModel', starts='MediaStarts',
                      start='MediaStart', ops='MediaOps', step='MediaStep',
                      obs='MediaObs', depth=d, inv=('ModelSound',),
                      prop=('ACStable',))]
             for t, d in (('quick', 2), ('thorough', 3))})


# ----------------------------------------------------------------------- URLs
prop('U14', sub='url', owns=everything,
     trace=dict(module='UrlTrace', start='UrlStart', step='UrlStep',
                obs='UrlObs'),
     models={t: [dict(module='UrlModel', starts='UrlStarts',
                      start='UrlStart', ops='UrlOps', step='UrlStep',
                      obs='UrlObs', depth=d,
                      inv=('ModelPlain', 'ModelUnique', 'ModelStable',
                           'ModelNeutral', 'ModelOpaque'),
                      prop=('ACApart',))]
             for t, d in (('quick', 2), ('thorough', 3))})


# -------------------------------------------------------------------- cascade
prop('C12', sub='cascade', owns=everything,
     trace=dict(module='CascadeTrace', start='CascadeStart',
                step='CascadeStep', obs='CascadeObs'),
     models={t: [dict(module='CascadeModel', starts=s, start='CascadeStart',
                      ops='CascadeOps', step='CascadeStep', obs='CascadeObs',
                      depth=d, inv=('ModelSound',), prop=('CascadeApart',))
                 for s, d in starts]
             for t, starts in (
                 ('quick', (('CascadeStarts', 1),)),
                 ('thorough', (('AllStarts', 1), ('DeepStarts', 2))))})


# ------------------------------------------------------------------- typed OM
prop('T25', sub='typed', owns=everything,
     trace=dict(module='TypedTrace', start='TypedStart', step='TypedStep',
                obs='TypedObs'),
     models={t: [dict(module='TypedModel', starts='TypedStarts',
                      start='TypedStart', ops=o, step='TypedStep',
                      obs='TypedObs', depth=d,
                      inv=('ModelTyped', 'ModelRoundTrip', 'ModelConverts'),
                      prop=('ACTypedApart',))
                 for o, d in ops]
             for t, ops in (
                 ('quick', (('TypedOps', 2),)),
                 ('thorough', (('TypedOps', 2), ('TypedThin', 4))))})


# ------------------------------------------------------- documents as XML text
prop('X30', sub='xml', owns=everything,
     trace=dict(module='XmlTrace', start='XmlStart', step='XmlStep',
                obs='XmlObs'),
     models={t: [dict(module='XmlModel', starts='XmlStarts', start='XmlStart',
                      ops=o, step='XmlStep', obs='XmlObs', depth=d,
                      inv=('ModelRoundTrip', 'ModelTree'),
                      prop=('ContentSticks', 'RefusedNothing'))
                 for o, d in ops]
             for t, ops in (
                 ('quick', (('XmlOps', 2), ('XmlThin', 3))),
                 ('thorough', (('XmlOps', 3), ('XmlThin', 5))))})


# ------------------------------------------- pages and the sheets they load
PAGE = dict(
    sub='page',
    trace=dict(module='PageTrace', start='PageStart', step='PageStep',
               obs='PageObs'),
    models={t: [dict(module='PageModel', starts=s, start='PageStart', ops=o,
                     step='PageStep', obs='PageObs', depth=d,
                     inv=('ReloadOnce', 'NoLoops'),
                     prop=('RefusedNothing', 'Apart', 'Arrives'))
                for s, o, d in runs]
            for t, runs in (
                ('quick', (('PageStarts', 'PageOps', 2),
                           ('PageStarts', 'PageThin', 3),
                           ('WebStarts', 'WebOps', 1))),
                ('thorough', (('PageStarts', 'PageOps', 3),
                              ('PageStarts', 'PageThin', 5),
                              ('WideStarts', 'WebOps', 1))))})

prop('N31', owns=clauses('out', 'pages'), **PAGE)
prop('R32', owns=clauses('sheets', 'fill'), **PAGE)


# ------------------------------------------------------ characters of a text
prop('T33', sub='chars', owns=everything,
     trace=dict(module='CharsTrace', start='CharsStart', step='CharsStep',
                obs='CharsObs'),
     models={t: [dict(module='CharsModel', starts=b,
                      start='CharsStart', ops=o, step='CharsStep',
                      obs='CharsObs', depth=d,
                      inv=('ModelSpaces', 'ModelFlat', 'ModelParts',
                           'ModelLengths', 'ModelBox'),
                      prop=('Unmoved', 'Hides'))
                 for b, o, d in ops]
             for t, ops in (
                 ('quick', (('CharsStarts', 'CharsThin', 2),
                            ('BreakStarts', 'CharsBreaks', 1))),
                 ('thorough', (('CharsStarts', 'CharsOps', 2),
                               ('CharsStarts', 'CharsDeep', 3),
                               ('BreakStarts', 'CharsBreaks', 1))))})


# ------------------------------------------------- sizes and weights of fonts
prop('F34', sub='fonts', owns=everything,
     trace=dict(module='FontsTrace', start='FontsStart', step='FontsStep',
                obs='FontsObs'),
     models={t: [dict(module='FontsModel', starts='FontsStarts',
                      start='FontsStart', ops=o, step='FontsStep',
                      obs='FontsObs', depth=d,
                      inv=('ModelInherits', 'ModelBounds', 'ModelOrder'),
                      prop=('FontsLocal',))
                 for o, d in ops]
             for t, ops in (
                 ('quick', (('FontsAll', 2), ('FontsThin', 3))),
                 ('thorough', (('FontsAll', 3), ('FontsThin', 5))))})
