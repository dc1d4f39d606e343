import sa
import os.path

PathLike = object
environ = {}
sep = '/'
linesep = '\n'


def _files():
    return sa.env('files')


def replace(src, dst):
    sa.event('file_replace', src, dst)
    _files().replace(src, dst)


rename = replace


def remove(path):
    _files().remove(path)


unlink = remove


def fspath(p):
    return p


def fsync(fd):
    pass


def getcwd():
    return sa.fresh('cwd', 'str')


def getenv(key, default=None):
    return default
