class Context:
    def __init__(self, *args, logger=None, headers=None):
        self._values, self._headers, self._response_headers = {}, dict(headers or {}), {}

    def set(self, key, value):
        self._values[key] = value

    def get(self, key):
        return self._values[key]

    def set_header(self, key, value):
        self._headers[key] = value

    def get_headers(self):
        return dict(self._headers)

    def set_response_header(self, key, value):
        self._response_headers[key] = value

    def get_response_headers(self):
        return dict(self._response_headers)
