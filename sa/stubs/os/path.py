import sa


def isfile(p):
    f = sa.env('files')
    if f is None:
        return sa.flag('is a file')
    return f.isfile(p)


exists = lexists = isfile


def isdir(p):
    return False


def join(a, *more):
    for x in more:
        a = a + '/' + x
    return a


def abspath(p):
    return p


expanduser = realpath = normpath = abspath


def basename(p):
    return p.split('/')[-1]


def dirname(p):
    return '/'.join(p.split('/')[:-1])
