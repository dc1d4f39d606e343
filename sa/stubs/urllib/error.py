class URLError(OSError):
    pass


class HTTPError(URLError):
    pass
