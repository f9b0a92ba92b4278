"""C29: reading touches no file but its own. Every name, string and key of documents of all kinds holds every path of a pool; an audit hook of the interpreter sees every file opened, listed, created, renamed or removed and every process or connection started,
and the scratch folder is compared with what it must hold."""
import os
import shutil
import sys
import zlib
from mc.pdfgen import N, R, S
from checks.c27 import full, small, write, paths, at, get, chunk, part
from checks.c30 import full2, FORMATS

ID = 'C29'
LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['the audit events of the Python interpreter (open, os.*, subprocess.*, socket.*, shutil.*, tempfile.*) stand for all accesses to files; data files may be read from the library, the Python installation and $CMAP_PATH or its default']
# (in a scratch folder with files of these names in and around it; @ is its absolute path)
POOL = ['../canary', '@/canary', '../../etc/canary', 'sub/canary', './canary', '..', '.', '', 'canary', 'canary\0', '../canary\0x', '..\\canary', '~/canary', 'file:///@/canary', '%2e%2e/canary', '%2e%2e%2fcanary', '%2E%2E%5Ccanary', '..%00/canary', '&#46;&#46;/canary', '..%c0%afcanary', '$HOME/canary', '|touch canary', '$(touch canary)', 'x' * 300, '/dev/stdin', '@/in.pdf',
        'C:\\canary', '../../../../../../../../../../../../../../../../@/canary', 'to-unicode-../canary', '../unicode/@/canary', '\xe4/../canary', '-', 'con', '*', 'H/../../canary', 'V\n/canary']


def BOUNDS(tier):
    return '%d names, strings and keys of three documents x %d paths; each document read, its images saved, converted to %s, with and without a folder for images' % (len(PLACES), len(POOL), 'one of five outputs' if tier == 'quick' else 'all five outputs')


def full3():
    """References to files and what else names can stand for."""
    fs = {'Type': N('Filespec'), 'F': b'a', 'UF': b'a', 'DOS': b'a', 'Unix': b'a', 'Mac': b'a', 'FS': N('URL'), 'EF': {'F': R(20)}}
    o = {1: {'Type': N('Catalog'), 'Pages': R(2), 'Names': {'EmbeddedFiles': {'Names': [b'a', R(10)]}, 'JavaScript': {'Names': [b'j', {'S': N('JavaScript'), 'JS': b'a'}]}, 'Dests': {'Names': [b'n', [R(3), N('Fit')]]}}, 'OpenAction': {'S': N('Launch'), 'F': R(10)},
             'AA': {'WC': {'S': N('GoToR'), 'F': b'a', 'D': b'n'}}, 'URI': {'Base': b'a'}, 'Metadata': R(21), 'Collection': {'D': b'a'}, 'Outlines': {'First': R(30), 'Last': R(30)}},
         2: {'Type': N('Pages'), 'Kids': [R(3)], 'Count': 1, 'MediaBox': [0, 0, 9, 9]},
         3: {'Type': N('Page'), 'Parent': R(2), 'Contents': [R(4), R(22)], 'Annots': [{'Subtype': N('Link'), 'A': {'S': N('URI'), 'URI': b'a'}}, {'Subtype': N('FileAttachment'), 'FS': R(10), 'Name': N('a')}, {'Subtype': N('Movie'), 'Movie': {'F': R(10)}}],
             'Resources': {'Font': {'F': R(5), 'J': R(7)}, 'XObject': {'Im': R(8), 'Ref': R(9)}, 'ExtGState': {'G': {'Font': [R(5), 1]}}, 'Properties': {'MC': {'F': b'a'}}, 'ColorSpace': {'C': [N('ICCBased'), R(23)]}}},
         4: S({}, b'BT /F 1 Tf (a) Tj /J 1 Tf <3021> Tj ET /Im Do /Ref Do /G gs /MC BDC EMC BI /W 1 /H 1 /BPC 8 /CS /G /F /AHx ID 61> EI'),
         5: {'Type': N('Font'), 'Subtype': N('Type1'), 'BaseFont': N('Canary'), 'Encoding': N('Own'), 'FontDescriptor': {'FontName': N('Canary'), 'FontFamily': b'a', 'FontFile': R(24)}},
         7: {'Type': N('Font'), 'Subtype': N('Type0'), 'BaseFont': N('J'), 'Encoding': R(25), 'DescendantFonts': [{'Type': N('Font'), 'Subtype': N('CIDFontType0'), 'BaseFont': N('J'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Japan1', 'Supplement': 2}}]},
         8: S({'Type': N('XObject'), 'Subtype': N('Image'), 'Name': N('Im'), 'Width': 1, 'Height': 1, 'BitsPerComponent': 8, 'ColorSpace': N('DeviceGray'), 'Alternates': [{'Image': R(8)}], 'OPI': {'2.0': {'Type': N('OPI'), 'F': R(10)}}}, b'a'),
         9: S({'Type': N('XObject'), 'Subtype': N('Form'), 'Name': N('Ref'), 'BBox': [0, 0, 1, 1], 'Ref': {'F': R(10), 'Page': b'a'}, 'LastModified': b'a'}, b'0 0 m 1 1 l S'), 10: fs,
         20: S({'Type': N('EmbeddedFile'), 'Subtype': N('text'), 'Params': {'ModDate': b'a'}}, b'file'), 21: S({'Type': N('Metadata'), 'Subtype': N('XML')}, b'<a/>'),
         22: S({'FFilter': N('FlateDecode'), 'FDecodeParms': {}}, b'0 0 m 2 2 l S'), 23: S({'N': 3, 'Alternate': N('DeviceRGB')}, b'icc'), 24: S({'Subtype': N('Type1C')}, b'dup 97 /a put'),
         25: S({'Type': N('CMap'), 'CMapName': N('Own'), 'UseCMap': N('H'), 'CIDSystemInfo': {'Registry': b'Adobe', 'Ordering': b'Japan1'}}, b'/H usecmap /CMapName /Own def'),
         26: S({'F': b'a'}, b'0 0 m 3 3 l S'), 30: {'Title': b'a', 'A': {'S': N('GoToR'), 'F': R(10), 'D': b'n'}}}
    return o, {'Info': {'Title': b'a', 'Author': b'a'}}


MAKERS = [full, full2, full3]
PROGRAMS = [(2, 25, b'/H usecmap', b'/%s usecmap'), (2, 25, b'/Own def', b'/%s def'), (0, 16, b'1 begincodespacerange', b'/%s usecmap 1 begincodespacerange'), (2, 24, b'/a put', b'/%s put'), (2, 4, b'/MC BDC', b'/%s BDC'), (2, 4, b'/CS /G', b'/CS /%s'), (2, 4, b'/F /AHx', b'/F /%s')]


def is_text(v):
    return isinstance(v, (bytes, N)) and not isinstance(v, S)


PLACES = []
for _i, _m in enumerate(MAKERS):
    _o, _t = _m()
    for _n in sorted(_o):
        PLACES += [['v', _i, (_n,) + _p] for _p, _v in paths(_o[_n]) if is_text(_v)] + ([['v', _i, (_n,)]] if is_text(_o[_n]) else [])
        PLACES += [['k', _i, (_n,) + _p] for _p, _v in paths(_o[_n]) if isinstance(_p[-1], str)]
    PLACES += [['v', _i, ('T',) + _p] for _p, _v in paths(_t) if is_text(_v)]
PLACES += [['p', i] for i in range(len(PROGRAMS))] + [['s', i] for i in range(3)]
LIB = []
EVENTS = []
WATCH = [False]
WRITES = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def hook(name, args):
    if not WATCH[0]:
        return
    if name == 'open' or name.split('.')[0] in ('os', 'subprocess', 'socket', 'shutil', 'tempfile', 'pty', 'ftplib', 'http', 'urllib', 'webbrowser', 'glob', 'pathlib', 'mmap', 'sqlite3', 'fcntl'):
        EVENTS.append((name, tuple(args)))


INSTALLED = []


def install():
    if not INSTALLED:
        INSTALLED.append(1)
        sys.addaudithook(hook)
        import importlib
        import pkgutil
        import pdfmajor
        from mc import engine
        # what is run on import of other packages is not the library reading a document
        for m in pkgutil.walk_packages(pdfmajor.__path__, 'pdfmajor.'):
            if not m.name.endswith('__main__'):
                try:
                    importlib.import_module(m.name)
                except ImportError:
                    pass
        LIB.extend(os.path.realpath(p) + os.sep for p in {engine.REPO, sys.prefix, sys.base_prefix, os.path.dirname(os.__file__), os.environ.get('CMAP_PATH', '/usr/share/pdfminer/')} | ({sys.pycache_prefix} if sys.pycache_prefix else set()))


def jobs(tier):
    return [('name', i, 32) for i in range(32)] + [('base', i) for i in range(3)]


def explore(job, ctx):
    if job[0] == 'name':
        chunk(ctx, {'k': 'name', 'out': 1 if ctx.tier == 'quick' else 5}, part(([p, v] for p in range(len(PLACES)) for v in range(len(POOL))), job[1], job[2]))
    else:
        ctx.run({'k': 'base', 'out': 5, 's': [[job[1], 0]]})


def document(case, x, root):
    if case['k'] == 'base':
        return write(*MAKERS[x[0]]())
    place = PLACES[x[0]]
    text = POOL[x[1]].replace('@', root)
    if place[0] == 'p':
        i, n, a, b = PROGRAMS[place[1]]
        objs, tr = MAKERS[i]()
        name = b''.join(b'#%02x' % c for c in text.encode('utf-8'))
        assert a in objs[n].data
        objs[n] = S(objs[n].attrs, objs[n].data.replace(a, b.replace(b'%s', name)))
        return write(objs, tr)
    if place[0] == 's':
        # a stream whose data are said to be in a file
        objs, tr = MAKERS[2]()
        n = (4, 24, 8)[place[1]]
        objs[n] = S(dict(objs[n].attrs, F={'Type': N('Filespec'), 'F': text.encode('latin-1')} if x[1] % 2 else text.encode('latin-1')), objs[n].data)
        return write(objs, tr)
    objs, tr = MAKERS[place[1]]()
    c, key = at(objs, tr, place[2])
    if place[0] == 'v':
        c[key] = N(text) if isinstance(c[key], N) else text.encode('latin-1')
    else:
        # the key in this place, and where it is used
        v = c.pop(key)
        c[N(text)] = v
        for s in objs.values():
            if isinstance(s, S) and not s.attrs.get('Filter'):
                s.data = s.data.replace(b'/%s ' % key.encode(), b'/' + b''.join(b'#%02x' % b for b in text.encode('utf-8')) + b' ')
    return write(objs, tr)


def listing(top):
    out = []
    for d, ds, fs in os.walk(top):
        out += [os.path.join(os.path.relpath(d, top), f) for f in fs] + [os.path.join(os.path.relpath(d, top), x) + '/' for x in ds]
    return sorted(os.path.normpath(p) for p in out)


def use(n, save, steps):
    """Reads the document in all ways; returns what was made."""
    from io import BytesIO
    from pdfmajor.execptions import PDFMajorException
    from pdfmajor.converters import convert_file
    from pdfmajor.interpreter import PDFInterpreter, LTImage, LTXObject, LTTextBlock
    from pdfmajor.parser.PDFDocument import PDFDocument
    from pdfmajor.parser.PDFParser import PDFParser
    saved, items = [], 0
    try:
        for page in PDFInterpreter('in.pdf', ignore_bad_chars=True):
            stack = list(page)
            while stack:
                x = stack.pop()
                items += 1
                if isinstance(x, LTImage):
                    x.stream.get_data()
                    try:
                        saved.append(x.save_image('img'))
                    except PDFMajorException:
                        pass
                elif isinstance(x, (LTXObject, LTTextBlock)):
                    stack.extend(x)
    except PDFMajorException:
        pass
    made = []
    for f in FORMATS if steps == 5 else [FORMATS[n % 5]]:
        made.append('out.' + f)
        try:
            convert_file('in.pdf', 'out.' + f, image_folder_path='img' if n % 2 else None, out_type=f, ignore_bad_chars=True)
        except PDFMajorException:
            pass
    try:
        with open('in.pdf', 'rb') as fp:
            doc = PDFDocument(PDFParser(fp))
            list(doc.get_outlines())
            doc.get_dest(b'n')
    except PDFMajorException:
        pass
    return saved, made, items


def allowed(event, root):
    """None if the library may do this, otherwise why not."""
    name, args = event
    if name == 'open':
        path, mode, flags = (args + (None, None))[:3]
        if isinstance(path, int):
            return None
        p = os.path.realpath(os.fsdecode(path))
        if isinstance(flags, int) and flags & WRITES or isinstance(mode, str) and set(mode) & set('wax+'):
            if p in [os.path.join(root, 'w', 'out.' + f) for f in FORMATS] or os.path.dirname(p) == os.path.join(root, 'w', 'img'):
                return None
            return 'writes %r' % p
        if p == os.path.join(root, 'w', 'in.pdf') or any(p.startswith(x) for x in LIB):
            return None
        return 'opens %r' % p
    if name in ('os.listdir', 'os.scandir') and args and args[0] is not None and any((os.path.realpath(os.fsdecode(args[0])) + os.sep).startswith(x) for x in LIB):
        return None      # the import system
    if name in ('os.fork', 'os.putenv', 'os.unsetenv'):
        return '%s%r' % event
    return '%s%r' % event


def run_case(case, obs):
    install()
    for x in case['s']:
        # a folder to work in, below one that must stay as it is
        shutil.rmtree('root', ignore_errors=True)
        os.makedirs('root/w/img')
        os.mkdir('root/w/sub')
        os.mkdir('root/etc')
        here = os.getcwd()
        root = os.path.realpath('root')
        canaries = ['canary', 'canary.pickle.gz', 'w/canary', 'w/canary.pickle.gz', 'etc/canary', 'w/sub/canary', 'w/sub/canary.pickle.gz', 'to-unicode-canary.pickle.gz', 'canary.pdf', 'canary.afm']
        for c in canaries:
            with open(os.path.join(root, c), 'wb') as f:
                f.write(b'canary')
        with open(os.path.join(root, 'w', 'in.pdf'), 'wb') as f:
            f.write(document(case, x, root))
        before = listing(root)
        os.chdir(os.path.join(root, 'w'))
        del EVENTS[:]
        try:
            WATCH[0] = True
            try:
                saved, made, items = use(sum(x), True, case['out'])
            finally:
                WATCH[0] = False
            for e in EVENTS:
                why = allowed(e, root)
                if why:
                    return 'reading %s (event %s)' % (why, e[0])
            after = listing(root)
            for f in set(after) - set(before):
                d, b = os.path.split(f)
                if not (d == 'w' and b in made or d == 'w/img'):
                    return 'reading created %r' % f
            if set(before) - set(after):
                return 'reading removed %r' % sorted(set(before) - set(after))
            for c in canaries:
                with open(os.path.join(root, c), 'rb') as f:
                    if f.read() != b'canary':
                        return 'reading changed %r' % c
            if case['k'] == 'base' and (not saved or not items or 'open' not in [e[0] for e in EVENTS] or any(not os.path.exists(m) for m in made)):
                return 'undamaged document: nothing was read or written (%r, %r, %r)' % (saved, made, items)
        finally:
            os.chdir(here)
        obs.state((case['k'], x))
        obs.trans(len(EVENTS))
        obs.count('traces')
        obs.outcome((len(saved), items, sorted({(e[0], os.path.basename(str(e[1][0])) if e[1] else '') for e in EVENTS if e[0] == 'open'})))
    return None
