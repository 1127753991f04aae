"""What each check runs. cfg texts are TLC configurations; plans caps how many exported plans are replayed."""


def mc(module, quick, thorough=None, inv='', spec='Spec', **kw):
    def cfg(c):
        return 'SPECIFICATION %s\n%sCHECK_DEADLOCK FALSE\nCONSTANTS\n%s\n' % (spec, ('INVARIANTS ' + inv + '\n') if inv else '', c) if c else \
            'SPECIFICATION %s\n%sCHECK_DEADLOCK FALSE\n' % (spec, ('INVARIANTS ' + inv + '\n') if inv else '')
    return dict(module=module, cfg=dict(quick=cfg(quick), thorough=cfg(thorough or quick)), **kw)


CMAP = mc('MC_Cmap', 'N = 4 MaxCode = 3 MaxSubs = 2 Rich = FALSE', 'N = 4 MaxCode = 4 MaxSubs = 2 Rich = TRUE', inv='Lookups InRange Export')

LIBINV = 'SubsetOK MergeOK Traced Plans'
LIB = mc('MC_FontLib', 'MaxHeap = 4 MaxOps = 4 Wide = FALSE Export = TRUE', 'MaxHeap = 4 MaxOps = 4 Wide = FALSE Export = TRUE', inv=LIBINV)
LIBW = mc('MC_FontLib', 'MaxHeap = 4 MaxOps = 3 Wide = TRUE Export = TRUE', 'MaxHeap = 4 MaxOps = 4 Wide = TRUE Export = FALSE', inv=LIBINV, timeout=850)


def lib(p, *more, plans=400):
    """The font library checks: exhaustive histories of the model, then sessions aimed at one property."""
    return dict(stages=[dict(mc=[LIB, LIBW], kind='lib' + p, trace='FontLibTrace', plans=dict(quick=plans, thorough=6000), xmx='12g')]
                + [dict(kind=k, trace='FontLibTrace', xmx='12g') for k in more])


CHECKS = {
    'C06': dict(stages=[dict(mc=CMAP, kind='cmap', trace='CmapTrace', plans=dict(quick=2000, thorough=20000))]),
    'C07': dict(stages=[dict(mc=CMAP, kind='cmap', trace='CmapTrace', plans=dict(quick=1000, thorough=20000)),
                        dict(kind='cmapconc', trace='CmapTrace', race=True, shards=4)]),
}
for _p, _more in dict(C05=['libreal'], C08=['libreal'], C12=['libreal'], C13=['libreal'], C14=['libreal', 'libbig'], C15=['libreal'], C16=[], C17=['libreal'], C18=['libreal'], C23=['libreal'], C24=['libreal']).items():
    CHECKS[_p] = lib(_p, *_more)

GLYF = [mc('MC_Glyf', 'MaxPts = 3 Menu = 2 Export = TRUE', 'MaxPts = 4 Menu = 2 Export = TRUE', inv='Decodes Prefix Drawn Plans'),
        mc('MC_GlyfComp', 'MaxGlyphs = 5 Rich = FALSE Export = TRUE', 'MaxGlyphs = 5 Rich = TRUE Export = TRUE', inv='Total Plans')]
CHECKS['C09'] = dict(stages=[dict(mc=GLYF, kind='glyf', trace='GlyfTrace', plans=dict(quick=700, thorough=12000))])
CS = mc('MC_CharString', 'MaxOps = 3 Wide = FALSE Export = TRUE', 'MaxOps = 3 Wide = TRUE Export = TRUE', inv='Inline Verdict Settled Counted Back Prefix Plans')
CHECKS['C10'] = dict(stages=[dict(mc=CS, kind='cs', trace='CharStringTrace', plans=dict(quick=1500, thorough=20000))])
TAB = mc('MC_Tables', 'MaxGlyphs = 6 Rich = FALSE Export = TRUE', 'MaxGlyphs = 12 Rich = TRUE Export = TRUE', inv='Fields Sources Lookups Texts Plans')
TABLES = dict(mc=TAB, kind='tables', trace='TablesTrace', plans=dict(quick=400, thorough=6000))
CHECKS['C11'] = dict(stages=[dict(mc=CS, kind='cs', trace='CharStringTrace', plans=dict(quick=1000, thorough=20000)), TABLES])
for _p in ('C17', 'C24'):
    CHECKS[_p]['stages'].append(TABLES)
CFFT = mc('MC_Cff', 'MaxGlyphs = 3 Rich = FALSE Export = TRUE', 'MaxGlyphs = 4 Rich = TRUE Export = TRUE', inv='Means Values Cut Plans')
for _p in ('C17', 'C24'):
    CHECKS[_p]['stages'].append(dict(mc=CFFT, kind='cff', trace='CffTrace', plans=dict(quick=700, thorough=0)))
KERN = mc('MC_Kern', 'MaxSubs = 2 Rich = TRUE Export = TRUE', 'MaxSubs = 3 Rich = TRUE Export = TRUE', inv='Decodes Values Cut Plans')
CHECKS['C12']['stages'].append(dict(mc=KERN, kind='kern', trace='KernTrace', plans=dict(quick=500, thorough=12000)))

SFNT = mc('MC_Sfnt', 'Rich = FALSE Export = TRUE', 'Rich = TRUE Export = TRUE', inv='Verdict Exact Sane Plans')
CHECKS['C01'] = dict(stages=[dict(mc=SFNT, kind='sfnt', trace='SfntTrace', plans=dict(quick=700, thorough=14000))])
CHECKS['C02'] = dict(stages=[dict(mc=SFNT, kind='sfntw', trace='SfntTrace', plans=dict(quick=1, thorough=1)), dict(kind='sfnt', trace='SfntTrace')])
WRAP = mc('MC_Wrap', 'Rich = FALSE Export = TRUE', 'Rich = TRUE Export = TRUE', inv='Verdict Exact Known Plans')
CHECKS['C03'] = dict(stages=[dict(mc=WRAP, kind='wrap', trace='WrapTrace', plans=dict(quick=800, thorough=15000)), dict(kind='wrapreal', trace='WrapTrace', xmx='12g')])
WOFF2 = mc('MC_Woff2', 'Rich = FALSE Export = TRUE', 'Rich = TRUE Export = TRUE', inv='Numbers Words Rows Back Decodes Refuses Permits Discerns Plans')
CHECKS['C04'] = dict(stages=[dict(mc=WOFF2, kind='woff2', trace='Woff2Trace', plans=dict(quick=300, thorough=12000)), dict(kind='woff2real', trace='Woff2Trace'), dict(kind='w2write', trace='Woff2Trace')])
SYS = mc('MC_System', 'Rich = FALSE Export = TRUE', 'Rich = TRUE Export = TRUE', inv='OneReading Nearest Chosen Declared Plans')
CHECKS['C20'] = dict(stages=[dict(mc=SYS, kind='system', trace='SystemTrace', plans=dict(quick=12000, thorough=60000))])
CHECKS['C25'] = dict(stages=[dict(mc=SYS, kind='system', trace='SystemTrace', plans=dict(quick=12000, thorough=60000)), dict(kind='systemfind', trace='SystemTrace')])
AFM = mc('MC_Afm', 'Rich = FALSE Export = TRUE', 'Rich = TRUE Export = TRUE', inv='Whole Counted CutShort Noticed Plans')
CHECKS['C21'] = dict(stages=[dict(mc=AFM, kind='afm', trace='AfmTrace', plans=dict(quick=1500, thorough=20000)), dict(kind='afmreal', trace='AfmTrace')])
CONC = mc('MC_Conc', 'Once = TRUE Rich = FALSE Export = TRUE', 'Once = TRUE Rich = TRUE Export = TRUE', inv='Exact Apart Single Progress Plans')
CHECKS['C22'] = dict(stages=[dict(mc=CONC, kind='conc', trace='ConcTrace', race=True, plans=dict(quick=500, thorough=8000)), dict(kind='cmapconc', trace='CmapTrace', race=True, shards=4)])

DAMAGE = mc('MC_Damage', 'N = 5 V = 6 MaxDepth = 2 MaxWork = 4 Limit = 3 Off = {} Export = TRUE', 'N = 6 V = 7 MaxDepth = 2 MaxWork = 5 Limit = 3 Off = {} Export = TRUE', inv='NeverCrash Depth Work Memory\nPROPERTY Ends')
CHECKS['C19'] = dict(stages=[dict(mc=DAMAGE, kind='damage', trace='DamageTrace', plans=dict(quick=0, thorough=0))])

FILE = mc('MC_FontFile', 'Rich = FALSE', 'Rich = TRUE', inv='Sound Noticed', timeout=850)
CHECKS['C26'] = dict(stages=[dict(mc=[FILE, LIB], kind='file', trace='FontFileTrace', plans=dict(quick=150, thorough=2500), xmx='12g')])
CMD = mc('MC_Cmd', 'MaxText = 4 MaxItems = 1 MaxOuts = 2 Export = TRUE', 'MaxText = 6 MaxItems = 2 MaxOuts = 2 Export = TRUE', inv='Denotes Splits Numbers Patterns Careful Told Plans')
CHECKS['C27'] = dict(stages=[dict(mc=CMD, kind='cmd', trace='CmdTrace', plans=dict(quick=600, thorough=9000), by='p', tool=True)])
TAKEN = mc('MC_Taken', 'Cells = 6 MaxTables = 2 Unit = 2 Export = TRUE', 'Cells = 7 MaxTables = 3 Unit = 2 Export = TRUE', inv='Untouched Whole InPlace Plans')
CHECKS['C28'] = dict(stages=[dict(mc=TAKEN, kind='taken', trace='TakenTrace', plans=dict(quick=300, thorough=9000), by='harm')])

NOTES = {
    '*': 'Bounded model checking of the specification, and conformance of the code to it on the replayed plans and seeded cases; trusts TLC, the font builder of the harness and the projection of font objects.',
}
NA = {}
