import sa


class Request:
    def __init__(self, url, data=None, headers={}, origin_req_host=None, unverifiable=False,
                 method=None):
        self.full_url = url
        self.data = data
        self.headers = {}
        for k, v in headers.items():
            self.add_header(k, v)
        if method:
            self.method = method

    def add_header(self, key, val):
        self.headers[key] = val

    def get_method(self):
        default = 'POST' if self.data is not None else 'GET'
        return getattr(self, 'method', default)


def urlopen(url, data=None, timeout=None, *, context=None):
    f = sa.env('urlopen')
    if f is None:
        return sa.unmodelled('urllib.request.urlopen')
    return f(url, data)
