import sa


class File:
    def __init__(self, name, mode):
        self.name, self.mode, self.closed = name, mode, False
        self._sa_files = sa.env('files')
        if self._sa_files is not None:
            self._sa_files.opened(self)

    def read(self, *a):
        if self._sa_files is not None:
            return self._sa_files.read(self)
        return sa.fresh('text', 'str')

    def readline(self, *a):
        return sa.fresh('line', 'str')

    def write(self, s):
        sa.event('file_write', self.name, s)
        if self._sa_files is not None:
            self._sa_files.write(self, s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def truncate(self, size=None):
        if self._sa_files is not None:
            self._sa_files.truncate(self)

    def seek(self, *a):
        return 0

    def fileno(self):
        return 3

    def flush(self):
        pass

    def close(self):
        if not self.closed:
            self.closed = True
            sa.event('file_close', self.name, self.mode)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return iter(())


def open(file, mode='r', *args, **kw):
    sa.event('open', file, mode)
    return File(file, mode)
