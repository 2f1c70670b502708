import json

from . import errors, exceptions


class Unreachable(Exception):
    """What the checker's transport raises when there is no answer."""

    timeout = False


class TwirpClient:
    # set by the checker: transport(url, body, headers) -> (status, body)
    transport = None

    def __init__(self, address, timeout=5):
        self._address = address
        self._timeout = timeout

    def _make_request(self, *args, url, ctx, request, response_obj, **kwargs):
        kwargs["headers"] = dict(kwargs.get("headers") or {})
        kwargs["headers"].update(ctx.get_headers())
        kwargs["headers"]["Content-Type"] = "application/protobuf"
        try:
            st, body = TwirpClient.transport(self._address + url, request.SerializeToString(), kwargs["headers"])
        except Unreachable as e:
            if e.timeout:
                raise exceptions.TwirpServerException(code=errors.Errors.DeadlineExceeded, message=str(e), meta={})
            raise exceptions.TwirpServerException(code=errors.Errors.Unavailable, message=str(e), meta={})
        if st == 200:
            r = response_obj()
            r.ParseFromString(body)
            return r
        try:
            raise exceptions.TwirpServerException.from_json(json.loads(body))
        except ValueError:
            raise exceptions.TwirpServerException(code=errors.Errors.Unknown, message="bad response", meta={})
