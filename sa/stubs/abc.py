class ABCMeta(type):
    def register(cls, subclass):
        cls._sa_registered = getattr(cls, '_sa_registered', ()) + (subclass,)
        return subclass


class ABC(metaclass=ABCMeta):
    pass


def abstractmethod(f):
    f.__isabstractmethod__ = True
    return f


class abstractproperty(property):
    pass
