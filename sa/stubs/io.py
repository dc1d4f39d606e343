import sa


class StringIO:
    """(a text buffer: holds the pieces written, in order)"""

    def __init__(self, initial=''):
        self._sa_written = []
        self._sa_text = initial
        self.mode = 'w'

    def write(self, s):
        self._sa_written.append(s)

    def getvalue(self):
        if len(self._sa_written) == 1:
            return self._sa_written[0]
        return tuple(self._sa_written)

    def read(self, *a):
        return self._sa_text

    def seek(self, *a):
        return 0

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass
