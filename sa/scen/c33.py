"""Rewriting the configuration file cannot lose existing sections."""
import sa
import pack
from scen.common import attempt

NAME = 'setup.cfg'


class Text:
    """what a file holds: sections and their values (None: nothing, truncated)"""

    def __init__(self, sections):
        self.sections = sections


def copied(sections):
    return {k: dict(v) for k, v in sections.items()}


class Disk:
    """the files, as lists of sections; and the ini parser's reading and writing of them"""

    def __init__(self, exists=True):
        self.faults = ()
        self.values = {n: {'k': sa.sym(n, 'str'), 'l': sa.sym(n, 'str')} for n in ('first', 'metadata', 'last')}
        if sa.flag('the section exists already'):
            names = ('first', 'metadata', 'last')
        else:
            names = ('first', 'last')
        self.names = names
        self.files = {}
        if exists:
            self.files[NAME] = Text({n: dict(self.values[n]) for n in names})
        self.emptied = []  # files whose former content is gone and not yet written again
        self.failed = None
        sa.set_env('files', self)
        sa.set_env('config', self)

    def fault(self, what):
        if what in self.faults and self.failed is None and sa.flag('%s fails' % what):
            self.failed = what
            raise sa.user_error(what)

    # files
    def isfile(self, p):
        return p in self.files

    def opened(self, f):
        if 'w' in f.mode:
            if f.name in self.files:
                self.emptied.append(f.name)
            self.files[f.name] = Text({})
        elif 'r' in f.mode:
            if f.name not in self.files:
                raise FileNotFoundError(f.name)
        elif 'a' in f.mode:
            if f.name not in self.files:
                self.files[f.name] = Text({})

    def read(self, f):
        return self.files[f.name]

    def write(self, f, text):
        sa.check(isinstance(text, Text), 'something else than the configuration is written')
        now = self.files[f.name].sections
        for k, v in text.sections.items():
            sa.check(k not in now, 'a section is written twice')
            now[k] = v
        if f.name in self.emptied:
            self.emptied.remove(f.name)

    def truncate(self, f):
        if f.name in self.files:
            self.emptied.append(f.name)
        self.files[f.name] = Text({})

    def replace(self, a, b):
        self.files[b] = self.files[a]
        del self.files[a]

    def remove(self, p):
        del self.files[p]

    def may_fail(self, what):
        sa.check(len(self.emptied) == 0, 'a step that can fail happens after the file was emptied')
        self.fault(what)

    # the parser: _sa_own holds [sections]
    def own(self, c):
        if len(c._sa_own) == 0:
            c._sa_own.append({'DEFAULT': {}})
        return c._sa_own[0]

    def load(self, c, text):
        self.may_fail('parse')
        for k, v in text.sections.items():
            self.own(c)[k] = dict(v)

    def read_file(self, c, f):
        self.load(c, f.read())

    def read_string(self, c, text):
        self.load(c, text)

    def set_section(self, c, section, values):
        self.may_fail('store')
        self.own(c)[section] = dict(values)

    def add_section(self, c, section):
        if section in self.own(c):
            raise ValueError(section)
        self.own(c)[section] = {}

    def set_option(self, c, section, option, value):
        self.may_fail('store')
        self.own(c)[section][option] = value

    def remove_section(self, c, section):
        self.own(c).pop(section, None)

    def has_section(self, c, section):
        return section in self.own(c)

    def get_section(self, c, section):
        if section not in self.own(c):
            raise KeyError(section)
        return self.own(c)[section]

    def sections(self, c):
        return [k for k in self.own(c) if k != 'DEFAULT']

    def keys(self, c):
        return list(self.own(c))

    def write_parser(self, c, fp):
        fp.write(Text({k: dict(v) for k, v in self.own(c).items() if k != 'DEFAULT'}))


def kept(d, names, new, what):
    """the file holds names' values, and new as the section written"""
    now = d.files[NAME].sections
    for n in names:
        if n != what:
            sa.check(n in now and same_dict(now[n], d.values[n]), 'another section is lost or changed')
    sa.check(len(d.emptied) == 0 and len(now) > 0, 'the file is left empty')
    if new is not None:
        sa.check(what in now and same_dict(now[what], new), 'the section written is not in the file')
        sa.check(all(k in names or k == what for k in now), 'a section appears that was not there')


def same_dict(a, b):
    return len(a) == len(b) and all(k in a and sa.same(a[k], b[k]) for k in b)


def plain(x):
    return x


def new_values():
    return {'name': sa.sym('name', 'str'), 'k': sa.sym('k', 'str')}


def prove_write():
    d = Disk(exists=sa.flag('the file exists'))
    existed = NAME in d.files
    v = new_values()
    kw = {}
    what = 'metadata'
    if sa.flag('another section'):
        what = kw['section'] = 'other'
    if sa.flag('own preprocessing'):
        kw['preproc'] = plain
    pack.write_configs(dict(v), NAME, **kw)
    kept(d, d.names if existed else (), v, what)


def prove_write_fails():
    """any step that can reject the values fails: the file is as before"""
    d = Disk()
    d.faults = ('parse', 'store', 'preprocessing')

    def preproc(items):
        d.may_fail('preprocessing')
        return items
    kind, v = attempt(pack.write_configs, new_values(), NAME, preproc=preproc)
    sa.check(kind == ('ok' if d.failed is None else 'error'), 'a failing step goes unnoticed')
    if kind == 'error':
        kept(d, d.names, None, None)
        sa.check(len(d.files) == 1 and len(d.files[NAME].sections) == len(d.names),
                 'a failing write changes the file')
    else:
        sa.reach('a successful write')


def prove_lazy_preprocessing():
    """preprocessing that fails only when its result is consumed"""
    d = Disk()
    bad = sa.choose(3, 'which')

    def preproc(items):
        i = 0
        for k, v in items.items():
            sa.check(len(d.emptied) == 0, 'a step that can fail happens after the file was emptied')
            if i == bad:
                d.failed = 'preprocessing'
                raise sa.user_error('value')
            yield k, v
            i += 1
    kind, v = attempt(pack.write_configs, new_values(), NAME, preproc=preproc)
    sa.check(kind == ('ok' if d.failed is None else 'error'), 'a failing step goes unnoticed')
    kept(d, d.names, None, 'metadata' if kind == 'ok' else None)


def prove_preprocessed():
    """what is written is what the preprocessing made of the values"""
    d = Disk()
    v = new_values()
    w = {'a': sa.sym('a', 'str')}
    got = []

    def preproc(items):
        got.append(items)
        return w
    pack.write_configs(v, NAME, preproc=preproc)
    sa.check(len(got) == 1 and same_dict(dict(got[0]), v), 'the preprocessing is not given the values')
    kept(d, d.names, w, 'metadata')


def prove_default_preprocessing():
    d = Disk()
    v = {'name': 'x', 'words': ['a', 'b'], 'none': []}
    pack.write_configs(v, NAME)
    kept(d, d.names, {'name': 'x', 'words': '\n\ta\n\tb', 'none': '\n\t'}, 'metadata')


def prove_write_twice():
    d = Disk()
    v, w = new_values(), new_values()
    pack.write_configs(v, NAME, preproc=plain)
    pack.write_configs(w, NAME, section='other', preproc=plain)
    now = d.files[NAME].sections
    sa.check(same_dict(now['metadata'], v) and same_dict(now['other'], w),
             'the section written is not in the file')
    for n in ('first', 'last'):
        sa.check(n in now and same_dict(now[n], d.values[n]), 'another section is lost or changed')


def marked(items):
    pairs = items.items() if isinstance(items, dict) else items
    return {('post', k): ('post', v) for k, v in pairs}


def prove_read_all():
    d = Disk()
    post = sa.flag('with postprocessing')
    r = pack.read_configs(NAME, section=None, postproc=marked if post else None)
    for n in d.names:
        sa.check(n in r, 'a section is not returned')
        if post:
            sa.check(same_dict(dict(r[n]), marked(d.values[n])), 'a section is not passed through the '
                     'postprocessing')
        else:
            sa.check(same_dict(dict(r[n]), d.values[n]), 'a section is not returned as it is')
    sa.check(all(k in d.names or k == 'DEFAULT' for k in r), 'a section appears that was not there')
    kept(d, d.names, None, None)


def prove_read_one():
    d = Disk()
    post = sa.flag('with postprocessing')
    n = 'first' if sa.flag('named') else 'metadata'
    kw = {'section': n} if n == 'first' or sa.flag('given') else {}
    kind, r = attempt(pack.read_configs, NAME, postproc=marked if post else None, **kw)
    if n not in d.names:
        sa.check(kind == 'error', 'a section that is not there is read')
        return
    sa.check(kind == 'ok', 'reading a section fails')
    if post:
        sa.check(same_dict(r, marked(d.values[n])), 'a section is not passed through the postprocessing')
    else:
        sa.check(same_dict(r, d.values[n]), 'a section is not returned as it is')
    kept(d, d.names, None, None)


def prove_read_back():
    """what was written is read"""
    d = Disk()
    v = new_values()
    pack.write_configs(v, NAME, preproc=plain)
    sa.check(same_dict(pack.read_configs(NAME, postproc=None), v), 'what was written is not read back')


def prove_read_again():
    """the file as it is by then"""
    d = Disk()
    every = sa.flag('all sections')
    how = {'section': None} if every else {'section': 'first'}
    pack.read_configs(NAME, postproc=None, **how)
    now = {'first': {'k': sa.sym('now', 'str')}, 'new': {'k': sa.sym('now', 'str')}}
    if sa.flag('written by another'):
        d.files[NAME] = Text(copied(now))
    else:
        pack.write_configs(now['first'], NAME, section='first', preproc=plain)
        pack.write_configs(now['new'], NAME, section='new', preproc=plain)
    r = pack.read_configs(NAME, postproc=None, **how)
    if every:
        for n in now:
            sa.check(n in r and same_dict(dict(r[n]), now[n]), 'a section is not read as it is now')
    else:
        sa.check(same_dict(dict(r), now['first']), 'a section is not read as it is now')
