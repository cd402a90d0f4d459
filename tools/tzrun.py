"""Run the compiler of the current directory (cwd = repository) on small TZ files, inside a scratch directory."""
import os
import shutil
import sys
import tempfile
import types

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))

if 'acetime' not in sys.modules:
    class BufferSizeInfo:
        active_size = 4
        buffer_size = 5

    class ZoneProcessor:
        sizes = {}
        years = {}
        infos = {}

        def __init__(self, info):
            self.info = info
            ZoneProcessor.infos[info['name']] = info

        def init_for_year(self, year):
            self.year = year
            ZoneProcessor.years.setdefault(self.info['name'], []).append(year)

        def get_buffer_sizes(self):
            b = BufferSizeInfo()
            b.buffer_size = ZoneProcessor.sizes.get((self.info['name'], self.year),
                                                    ZoneProcessor.sizes.get(self.info['name'], 5))
            return b

        def is_terminal_year(self, year):
            return False

    for n in ('acetime', 'acetime.zone_processor', 'acetime.typing'):
        sys.modules[n] = types.ModuleType(n)
    sys.modules['acetime.zone_processor'].ZoneProcessor = ZoneProcessor
    for n in ('ZoneInfoMap', 'ZoneRule', 'ZonePolicy', 'ZonePolicyMap', 'ZoneEra', 'ZoneInfo'):
        setattr(sys.modules['acetime.typing'], n, dict)

import logging
from acetimetools.extractor.extractor import Extractor
logging.disable(logging.CRITICAL)

FILES = ['africa', 'antarctica', 'asia', 'australasia', 'backward', 'etcetera', 'europe', 'northamerica', 'southamerica']


def put(d, files):
    for n in set(FILES) | set(getattr(Extractor, 'ZONE_FILES', [])) | set(files):
        with open(os.path.join(d, n), 'w', encoding='utf-8') as f:
            f.write(files.get(n, ''))


def extract(files):
    if isinstance(files, str):
        files = {'europe': files}
    d = tempfile.mkdtemp()
    try:
        put(d, files)
        e = Extractor(d)
        e.parse()
        return e
    finally:
        shutil.rmtree(d)


def transform(files, scope='extended', **kw):
    """Extractor, then Transformer; returns (result, transformer)"""
    from acetimetools.transformer.transformer import Transformer
    from acetimetools.datatypes.attyping import TransformerResult
    import inspect
    e = extract(files)
    p, z, l = e.get_data()
    low = scope != 'complete'
    a = dict(scope=scope, start_year=2000, until_year=2200, until_at_granularity=60 if low else 1,
             offset_granularity=60 if low else 1, delta_granularity=900 if low else 60, strict=True,
             generate_tiny_years=low, tiny_base_year=2100, include_list=set())
    a.update(kw)
    t = Transformer(**a)
    fields = TransformerResult.__init__.__code__.co_varnames[1:] if not hasattr(TransformerResult, '_fields') else TransformerResult._fields
    ann = getattr(TransformerResult, '__annotations__', {})
    names = [n for n in (list(inspect.signature(TransformerResult).parameters))]
    init = {}
    for n in names:
        init[n] = False if n.endswith('truncated') else 0 if n.endswith(('year', 'size', 'accurate')) else {}
    init.update(zones_map=z, policies_map=p, links_map=l)
    r = TransformerResult(**init)
    t.transform(r)
    return r, t


def compile(files, *args, **kw):
    """main() of the compiler; returns {file name: bytes}; exceptions pass through"""
    import acetimetools.tzcompiler as tzc
    if isinstance(files, str):
        files = {'europe': files}
    d = tempfile.mkdtemp()
    old = sys.argv
    try:
        os.mkdir(os.path.join(d, 'in'))
        os.mkdir(os.path.join(d, 'out'))
        put(os.path.join(d, 'in'), files)
        opts = {'--input_dir': os.path.join(d, 'in'), '--output_dir': os.path.join(d, 'out'), '--tz_version': '2024a',
                '--scope': 'extended', '--actions': 'zonedb', '--languages': 'arduino,c,python,go',
                '--start_year': '2000', '--until_year': '2010', '--db_namespace': 'zonedb'}
        extra = []
        for a in args:
            if isinstance(a, tuple):
                opts[a[0]] = a[1]
            else:
                extra.append(a)
        sys.argv = ['tzcompiler.py'] + [x for kv in opts.items() for x in kv] + extra
        tzc.main()
        out = {}
        for base, _, fs in os.walk(os.path.join(d, 'out')):
            for f in fs:
                with open(os.path.join(base, f), 'rb') as h:
                    out[os.path.relpath(os.path.join(base, f), os.path.join(d, 'out'))] = h.read()
        return out
    finally:
        sys.argv = old
        shutil.rmtree(d)


def go_data(out, const, size):
    """the records of `const NAME = "\\x.." + ...` in the generated Go files, as a list of bytes"""
    import re
    for n in sorted(out):
        if n.endswith('.go') and not n.endswith('_test.go'):
            m = re.search(r'const %s = ((?:"[^"]*"[\s+]*)*)' % const, out[n].decode())
            if m:
                b = bytes(int(x, 16) for x in re.findall(r'\\x([0-9a-f]{2})', m.group(1)))
                return [b[i:i + size] for i in range(0, len(b), size)]


def go_words(out, const):
    """the elements of `var NAME = []type{...}`"""
    import re
    for n in sorted(out):
        if n.endswith('.go') and not n.endswith('_test.go'):
            m = re.search(r'var %s = \[\][a-z0-9]+\s*\{([^}]*)\}' % const, out[n].decode())
            if m:
                return [int(x, 0) for x in m.group(1).replace('\n', ' ').split(',') if x.strip()]


def go_text(out, const):
    """the characters of `const NAME = "a" + "b"`"""
    import re
    for n in sorted(out):
        if n.endswith('.go') and not n.endswith('_test.go'):
            m = re.search(r'const %s = ((?:"[^"]*"[\s+]*)*)' % const, out[n].decode())
            if m:
                return ''.join(re.findall(r'"([^"]*)"', m.group(1)))
