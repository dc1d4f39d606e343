import sa


def warn(message, category=None, stacklevel=1, source=None):
    sa.event('warn', message)


def filterwarnings(*a, **k):
    pass


simplefilter = filterwarnings
