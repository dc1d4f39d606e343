import sa

CRITICAL, ERROR, WARNING, INFO, DEBUG, NOTSET = 50, 40, 30, 20, 10, 0


class Logger:
    def __init__(self, name='root'):
        self.name = name

    def log(self, level, msg, *args, **kw):
        sa.event('log', level)

    def debug(self, msg, *args, **kw):
        self.log(DEBUG, msg)

    def info(self, msg, *args, **kw):
        self.log(INFO, msg)

    def warning(self, msg, *args, **kw):
        self.log(WARNING, msg)

    warn = warning

    def error(self, msg, *args, **kw):
        self.log(ERROR, msg)

    def exception(self, msg, *args, **kw):
        self.log(ERROR, msg)

    def critical(self, msg, *args, **kw):
        self.log(CRITICAL, msg)

    def isEnabledFor(self, level):
        return True

    def setLevel(self, level):
        pass

    def addHandler(self, h):
        pass


root = Logger()


def getLogger(name=None):
    return Logger(name)


debug, info, warning, error, exception, critical = (
    root.debug, root.info, root.warning, root.error, root.exception, root.critical)


def basicConfig(**kw):
    pass


class NullHandler:
    pass
