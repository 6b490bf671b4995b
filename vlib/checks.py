"""What each property's check runs: TLC jobs, driver, replay."""
from engine import Job

D = 'PsdDoc'


def doc(focus, kinds, n, shards, layers=4, depth=400, heap='3g'):
    return Job(D, 'PsdDoc.cfg', {'Focus': '"%s"' % focus, 'DamageKinds': '{' + ', '.join('"%s"' % k for k in kinds) + '}', 'MaxLayers': str(layers)},
               sim=n, depth=depth, shards=shards, heap=heap)


def on(platform, prop, job, driver=None):
    """the behaviours of a job, carried out on another platform and compared as for another property"""
    job.platform, job.prop, job.driver = platform, prop, driver or job.driver
    return job


def odd(q):
    return Job('OddBlocks', 'OddBlocks.cfg', {'Dense': 'FALSE' if q else 'TRUE'}, workers=3)


CHECKS = {}


NOT_APPLICABLE = {}
TECH = 'TLA+ specification checked with TLC; its behaviours are replayed into the real code and compared'
NOTE = ('Every behaviour is a complete run of the specification whose invariants TLC checked; the real code must agree with it in everything the property '
        'names. Trusted: the specification as a reading of the format, the bounds of the state space and, in simulation, the sampling (seeded by VERIF_SEED).')


def add(prop, driver, jobs, rule, level='model_checking', technique=TECH, note=NOTE, **kw):
    CHECKS[prop] = dict(driver=driver, jobs=jobs, rule=rule, level=level, technique=technique, note=note, **kw)


RULE = ('Each behaviour is one complete run of the specification (writer, damage, reader) that TLC checked against its invariants and that the driver '
        'then replayed into the real decoder; distinct_nontrivial counts behaviours with different emitted content.')

LIE = (' With "lie" a field anywhere in the file says something else, and the reader of the specification decides: what it refuses the decoder has to refuse '
       '(in the parts that are read), what it accepts the decoder has to accept and report as the specification\'s reader does.')

add('C01', 'drv_psd', lambda q: [
    Job('Header', 'Header.cfg', {'Wide': 'FALSE' if q else 'TRUE'}),
    doc('config', ['none'], 150 if q else 2400, 4),
    doc('layers', ['none'], 100 if q else 1200, 2),
    doc('config', ['lie'], 250 if q else 4000, 2), doc('layers', ['lie'], 100 if q else 1500, 1),
    doc('big', ['none'], 2 if q else 6, 1)], RULE + ' Header.tla is enumerated completely: every product of boundary values of version, channels, height, width, depth.')
add('C02', 'drv_psd', lambda q: [
    doc('big', ['none'], 2 if q else 6, 1),
    doc('layers', ['none'], 150 if q else 2400, 5), doc('layers', ['lie'], 150 if q else 2400, 3),
    odd(q)], RULE)
add('C03', 'drv_psd', lambda q: [
    Job('LayerTree', 'LayerTreeDeep.cfg', sim=150 if q else 1600, depth=400, shards=3 if q else 7),
    Job('LayerTree', 'LayerTree.cfg', {'MaxLen': '6' if q else '9'})],
    'LayerTree.tla: every sequence of record types up to MaxLen is enumerated; long random walks (26-320 records) are simulated; each finished walk is laid out as a file and decoded.')
add('C04', 'drv_psd', lambda q: [
    doc('big', ['none'], 1 if q else 4, 1),
    doc('layers', ['none'], 75 if q else 1200, 3),
    doc('merged', ['none'], 100 if q else 1200, 2),
    doc('planes', ['none'], 50 if q else 800, 1), doc('layers', ['lie'], 60 if q else 800, 1),
    Job('WideRows', 'WideRows.cfg', sim=100 if q else 2000, depth=10, shards=1),
    Job('PlaneCodec', 'PlaneCodec.cfg', sim=250 if q else 4000, depth=20, shards=1),
    doc('config', ['none'], 75 if q else 1200, 1),
    odd(q)], RULE)
add('C05', 'drv_psd', lambda q: [
    doc('layers', ['none', 'trunc', 'viol', 'trunc', 'viol'], 225 if q else 2800, 5),
    doc('merged', ['none', 'trunc', 'viol'], 150 if q else 1600, 1),
    doc('config', ['none', 'trunc', 'viol'], 150 if q else 1600, 1),
    doc('planes', ['trunc', 'viol', 'lie'], 130 if q else 1500, 1),
    doc('layers', ['lie'], 200 if q else 4000, 4), doc('merged', ['lie'], 200 if q else 3000, 1), doc('config', ['lie'], 150 if q else 3000, 1),
    odd(q)], RULE + LIE)
add('C06', 'drv_psd', lambda q: [
    doc('layers', ['noise', 'viol', 'trunc', 'lie'], 300 if q else 3600, 4),
    doc('merged', ['noise', 'viol', 'trunc'], 250 if q else 2400, 2),
    doc('config', ['noise', 'viol'], 200 if q else 2000, 1),
    doc('planes', ['noise', 'viol'], 150 if q else 1600, 1),
    odd(q)], RULE, mem=12 << 30)
add('C07', 'drv_psd', lambda q: [
    Job('PlaneCodec', 'PlaneCodec.cfg', sim=375 if q else 6000, depth=20, shards=3),
    doc('planes', ['none'], 100 if q else 1200, 3), doc('planes', ['lie'], 100 if q else 1500, 1),
    Job('WideRows', 'WideRows.cfg', sim=150 if q else 3200, depth=10, shards=3),
    doc('merged', ['none'], 100 if q else 1200, 2)], RULE + ' WideRows.tla writes rows and payloads of up to 1.2 million bytes as progressions that the driver expands.')
add('C08', 'drv_psd', lambda q: [
    Job('RowWorkers', 'RowWorkers.cfg', {'Rs': '{2, 4}' if q else '{2, 4, 5}'}, workers=4),
    Job('WideRows', 'WideRowsBad.cfg', sim=150 if q else 3200, depth=10, shards=2),
    Job('PlaneCodec', 'PlaneBad.cfg', sim=625 if q else 10000, depth=20, shards=6)],
    RULE + ' RowWorkers.tla enumerates every kind of every row, every division among workers and every interleaving.')
add('C09', 'drv_psd', lambda q: [
    doc('merged', ['none'], 150 if q else 2000, 4),
    doc('planes', ['none'], 75 if q else 1200, 2),
    doc('layers', ['none'], 75 if q else 1200, 1), doc('layers', ['lie'], 75 if q else 1200, 1),
    doc('config', ['none'], 75 if q else 1200, 1),
    odd(q)], RULE)
add('C10', 'drv_psd', lambda q: [
    doc('big', ['none'], 1 if q else 3, 1),
    doc('layers', ['none'], 75 if q else 1200, 4), doc('layers', ['lie'], 75 if q else 1200, 1),
    doc('merged', ['none'], 75 if q else 1200, 2),
    doc('config', ['none'], 75 if q else 1200, 1),
    odd(q)], RULE)

# ---- composite ----
RC = ('Each behaviour is a document (layer tree, pixels, masks, modes) generated by Scene.tla with the rendering its semantics give, checked against the invariants of '
      'Compose.tla, and replayed: the document is written as a PSD file, built with composite.New and rendered.')


def compose(focus, n, shards, nodes=8):
    return Job('Compose', 'Compose.cfg', {'Focus': '"%s"' % focus, 'MaxNodes': str(nodes)}, sim=n, depth=2000, shards=shards)


def history(n, shards, nodes=8, ev=40, race=False):
    return Job('RenderCache', 'RenderCache.cfg', {'MaxNodes': str(nodes), 'MaxEv': str(ev)}, sim=n, depth=2000, shards=shards, race=race)


def aside(q):
    # two tiles are needed to cancel a render after some of it was drawn
    return Job('RenderCache', 'RenderCacheAll.cfg', {'MaxEv': '7' if q else '8', 'NTiles': '2', 'Nodes': '1' if q else '2'}, workers=4, cases=False, heap='8g')


def abstract(q, cases=False, ev=None):
    return Job('RenderCache', 'RenderCacheAll.cfg', {'MaxEv': str(ev or (6 if q else 8))}, workers=4, cases=cases, heap='8g')


RH = ('RenderCacheAll enumerates every history of edits, renders and cancellations over small abstract trees (caches, dirty marks, pass-through groups, clipping) up to MaxEv; '
      'RenderCache simulates long histories over generated documents, and each is replayed edit by edit into composite.Tree and Renderer and compared pixel for pixel with a fresh tree.')
add('C11', 'drv_comp', lambda q: [
    Job('Compose', 'Compose.cfg', {'Focus': '"modes"'}, workers=2),
    compose('tree', 700 if q else 6000, 6), compose('wide', 300 if q else 3000, 2), compose('faint', 300 if q else 3000, 2)], RC)
add('C12', 'drv_comp', lambda q: [abstract(q), history(450 if q else 4000, 6), history(40 if q else 500, 2, race=True)], RH)
add('C13', 'drv_comp', lambda q: [abstract(q), history(450 if q else 4000, 6)], RH)
add('C14', 'drv_comp', lambda q: [
    abstract(q), aside(q), history(500 if q else 4000, 6), history(50 if q else 500, 2, race=True),
    Job('LateNews', 'LateNews.cfg', {'MaxEv': '10' if q else '14'}, workers=2, cases=False),
    Job('LateNews', 'LateNewsWalk.cfg', sim=60 if q else 800, depth=2000, shards=2),
    Job('LateNews', 'LateNewsWalk.cfg', {'N': '2', 'MaxEv': '30'}, sim=25 if q else 300, depth=2000, race=True),
    Job('CanvasPipeline', 'CanvasPipeline.cfg', {'MaxLayers': '3' if q else '4', 'MaxWorkers': '2' if q else '3'}, workers=2)],
    RH + ' LateNews enumerates announcements between the steps of workers inside of tiles, and its histories are replayed with announcements timed into the render. CanvasPipeline enumerates every interleaving of reading, handing over and converting layers with cancellation and read failure.')
add('C15', 'drv_comp', lambda q: [compose('tree', 200 if q else 2000, 5), compose('wide', 200 if q else 2000, 2)], RC)
add('C16', 'drv_comp', lambda q: [compose('tree', 200 if q else 2000, 5), compose('wide', 100 if q else 1000, 2), history(100 if q else 1000, 1)], RC)
add('C21', 'drv_comp', lambda q: [compose('tree', 300 if q else 3000, 5), compose('wide', 300 if q else 3000, 2), compose('faint', 300 if q else 3000, 2)], RC)

add('C22', 'drv_comp', lambda q: [
    Job('TreeView', 'TreeView.cfg', sim=400 if q else 5000, depth=100, shards=3),
    doc('comp', ['none'], 60 if q else 600, 2),
    doc('comp', ['noise', 'noise', 'viol', 'trunc'], 150 if q else 1500, 3)],
    'TreeView.tla builds the tree from layer records step by step and is checked against the document; PsdDoc.tla gives whole files, undamaged and damaged. '
    'Each is built into a composite.Tree, and the tree, its clone and its translation are compared with the specification.', mem=12 << 30)

# ---- blend and color ----
RB = ('Each behaviour is one draw (or one chain of color conversions) with the outcome the specification gives, and is carried out with every exported operator or mode it names, '
      'through every image representation of its kind, with several numbers of CPUs.')


def blend(module, focus, n, shards, consts=None, **kw):
    return Job(module, module + '.cfg', dict({'Focus': '"%s"' % focus}, **(consts or {})), sim=n, depth=2000, shards=shards, **kw)


add('C17', 'drv_blend', lambda q: [
    blend('BlendGeometry', 'clip', None, 1), blend('BlendGeometry', 'overlap', None, 1),
    blend('BlendGeometry', 'big', 500 if q else 8000, 5, {'MaxWorkers': '12'}),
    blend('BlendGeometry', 'big', 200 if q else 3000, 2, {'MaxWorkers': '12'}, race=True)], RB)
add('C18', 'drv_blend', lambda q: [
    blend('PorterDuff', 'all', None, 1, workers=2), blend('PorterDuff', 'random', 2000 if q else 30000, 6)], RB)
add('C19', 'drv_blend', lambda q: [
    blend('BlendModes', 'all', None, 1, {'Alphas': '{0, 1, 128, 254, 255}' if q else '{0, 1, 2, 64, 127, 128, 200, 254, 255}'}, workers=2),
    blend('BlendModes', 'random', 1200 if q else 20000, 6)], RB)
add('C20', 'drv_blend', lambda q: [
    blend('ColorModels', 'all', None, 1, workers=4, heap='6g'), blend('ColorModels', 'random', 10000 if q else 150000, 4, {'MaxSteps': '5'})], RB)

# ---- psdexporter ----
add('C23', 'drv_comp', lambda q: [
    Job('Exporter', 'Exporter.cfg', sim=150 if q else 2500, depth=100, shards=5),
    Job(D, 'PsdDoc.cfg', {'Focus': '"layers"', 'DamageKinds': '{"none"}', 'MaxLayers': '4'}, sim=60 if q else 800, depth=400, shards=3, driver='drv_psd')],
    'Exporter.tla walks generated layer trees and lists the files that must be there; PsdDoc.tla gives documents of every color mode and depth. Each document is written, '
    'psdexporter is run over it in an empty directory, and the files it leaves are compared in name and pixels.',
    tools={'PSD_EXPORTER': 'github.com/oov/psd/psdexporter'})

# ---- concurrency ----
add('C24', 'drv_comp', lambda q: [
    Job('SideBySide', 'SideBySide.cfg', {'MaxEv': '30' if q else '60'}, sim=250 if q else 3000, depth=2000, shards=2, race=True),
    Job('SideBySide', 'SideBySide.cfg', sim=250 if q else 4000, depth=2000, shards=2),
    Job(D, 'PsdDoc.cfg', {'Focus': '"layers"', 'DamageKinds': '{"none", "none", "trunc", "viol"}', 'MaxLayers': '4'}, sim=60 if q else 800, depth=400, shards=2,
        driver='drv_psd', race=True),
    Job(D, 'PsdDoc.cfg', {'Focus': '"merged"', 'DamageKinds': '{"none", "none", "trunc"}', 'MaxLayers': '4'}, sim=100 if q else 1000, depth=400, shards=2,
        driver='drv_psd', race=True)],
    'SideBySide.tla generates schedules of overlapping operations (decode, build, clone, render, transform, thumbnails, draws) with edits in between; each is carried out by real '
    'goroutines, with and without the race detector, and every result is compared with the specification and with the same operation carried out alone. PsdDoc.tla gives '
    'files of every color mode, depth and compression, whole and cut, that are decoded and read by nine goroutines at once.', mem=12 << 30)

# ---- transforms ----
add('C25', 'drv_comp', lambda q: [
    Job('Moves', 'Moves.cfg', {'MaxNodes': '5'}, sim=250 if q else 4000, depth=2000, shards=6),
    Job('Moves', 'Moves.cfg', {'MaxNodes': '2'}, sim=150 if q else 1500, depth=2000, shards=2),
    Job('Light', 'Light.cfg', sim=300 if q else 4000, depth=2000, shards=2)],
    'Light.tla generates finely striped pictures that are made smaller, and gives the means that must be seen, in the light of the gamma. Moves.tla generates documents and affine maps, one or two in a row; what each pixel of the new canvas shows is what Scene.tla says is at the place its centre comes from. '
    'Each is carried out by composite.New with the map or by Tree.Transform, with several gammas, tile sizes and CPU counts.')

# ---- other platforms ----
def elsewhere(q):
    jobs = []
    for p in ('386', 'wasm', 'script'):
        jobs += [
            on(p, 'C07', Job('PlaneCodec', 'PlaneCodec.cfg', sim=250 if q else 5000, depth=20)),
            on(p, 'C07', Job('WideRows', 'WideRows.cfg', sim=60 if q else 1500, depth=10)),
            on(p, 'C08', Job('PlaneCodec', 'PlaneBad.cfg', sim=600 if q else 9000, depth=20)),
            on(p, 'C08', Job('WideRows', 'WideRowsBad.cfg', sim=60 if q else 1500, depth=10)),
            on(p, 'C09', doc('merged', ['none'], 120 if q else 1500, 1)),
            on(p, 'C05', doc('layers', ['none', 'trunc', 'viol', 'viol'], 200 if q else 2400, 1)),
            on(p, 'C02', doc('layers', ['none'], 100 if q else 1200, 1))]
    for p in ('386', 'wasm'):
        jobs += [
            on(p, 'C05', doc('config', ['none', 'trunc', 'viol', 'viol'], 150 if q else 1600, 1)),
            on(p, 'C11', compose('tree', 60 if q else 1000, 1), 'drv_comp'),
            on(p, 'C12', history(30 if q else 500, 1), 'drv_comp'),
            on(p, 'C25', Job('Moves', 'Moves.cfg', {'MaxNodes': '4'}, sim=60 if q else 800, depth=2000), 'drv_comp'),
            on(p, 'C25', Job('Light', 'Light.cfg', sim=40 if q else 600, depth=2000), 'drv_comp'),
            on(p, 'C22', Job('TreeView', 'TreeView.cfg', sim=80 if q else 1000, depth=100), 'drv_comp'),
            on(p, 'C18', blend('PorterDuff', 'random', 500 if q else 9000, 1), 'drv_blend'),
            on(p, 'C19', blend('BlendModes', 'random', 400 if q else 6000, 1), 'drv_blend'),
            on(p, 'C20', blend('ColorModels', 'random', 4000 if q else 50000, 1, {'MaxSteps': '5'}), 'drv_blend'),
            on(p, 'C17', blend('BlendGeometry', 'big', 80 if q else 1500, 1, {'MaxWorkers': '12'}), 'drv_blend')]
    return jobs + [on('386', 'C05', odd(q))]


add('C26', 'drv_psd', elsewhere,
    'The behaviours of PlaneCodec, WideRows, PsdDoc, OddBlocks, Compose, RenderCache, Moves, TreeView, PorterDuff, BlendModes, ColorModels and BlendGeometry are carried out by '
    'drivers built for a 32-bit machine, for WebAssembly (run by node), and with the files chosen for GopherJS whose calls into compress.inc.js a JavaScript engine carries out.')
