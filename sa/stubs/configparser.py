import sa


class Error(Exception):
    pass


class RawConfigParser:
    def __init__(self, *a, **k):
        self._sa_env = sa.env('config')
        self._sa_own = []

    def read_file(self, f, source=None):
        self._sa_env.read_file(self, f)

    def read(self, filenames, encoding=None):
        return self._sa_env.read(self, filenames)

    def read_string(self, string, source=None):
        self._sa_env.read_string(self, string)

    def read_dict(self, dictionary, source=None):
        for k, v in dictionary.items():
            self[k] = v

    def __setitem__(self, section, values):
        self._sa_env.set_section(self, section, values)

    def add_section(self, section):
        self._sa_env.add_section(self, section)

    def set(self, section, option, value=None):
        self._sa_env.set_option(self, section, option, value)

    def has_section(self, section):
        return self._sa_env.has_section(self, section)

    def __contains__(self, section):
        return self._sa_env.has_section(self, section)

    def __getitem__(self, section):
        return self._sa_env.get_section(self, section)

    def sections(self):
        return self._sa_env.sections(self)

    def __len__(self):
        return len(self._sa_env.keys(self))

    def get(self, section, option, **kw):
        return self[section][option]

    def update(self, other):
        for k, v in other.items():
            self[k] = v

    def keys(self):
        return self._sa_env.keys(self)

    def __iter__(self):
        return iter(self._sa_env.keys(self))

    def items(self, section=None, raw=False, vars=None):
        if section is not None:
            return self[section].items()
        return [(k, self[k]) for k in self.keys()]

    def remove_section(self, section):
        self._sa_env.remove_section(self, section)

    def write(self, fp, space_around_delimiters=True):
        self._sa_env.write_parser(self, fp)


DEFAULTSECT = 'DEFAULT'


class ConfigParser(RawConfigParser):
    pass


SafeConfigParser = ConfigParser
