"""A scripted internet behind urllib.request.urlopen, with injected faults."""
import email.message
import io
import threading
import urllib.error
import urllib.request


class Response(io.BytesIO):
    def __init__(self, url, body, length, hook):
        super().__init__(body)
        self.url = url
        self.status = self.code = 200
        self.length = length
        self.headers = email.message.Message()
        self.headers["Content-Length"] = str(length)
        self.hook = hook

    def read(self, n=-1):
        data = super().read(n)
        if self.hook is not None:
            self.hook(self.tell(), len(data))
        return data

    def geturl(self):
        return self.url

    def getcode(self):
        return 200

    def info(self):
        return self.headers


class Net:
    """pages: url -> bytes. faults: url -> list of faults, one consumed per request:
    'refused', '404', 'reset' (fails part way), 'truncated', 'corrupt', None (fine)."""

    def __init__(self, pages, faults=None, order=None):
        self.pages, self.faults = dict(pages), {k: list(v) for k, v in (faults or {}).items()}
        self.log = []
        self.lock = threading.Lock()
        self.delay = order

    def urlopen(self, req, *a, **kw):
        url = req.full_url if hasattr(req, "full_url") else req
        method = req.get_method() if hasattr(req, "get_method") else "GET"
        if getattr(req, "headers", {}).get("Method") == "HEAD":
            method = "HEAD"     # torchvision's way of probing for redirects
        if self.delay:
            self.delay(url)
        with self.lock:
            fault = None
            if method != "HEAD":
                q = self.faults.get(url)
                fault = q.pop(0) if q else None
                self.log.append((url, fault))
        body = self.pages.get(url)
        if body is None or fault == "404":
            raise urllib.error.HTTPError(url, 404, "Not Found", email.message.Message(), None)
        if fault == "refused":
            raise urllib.error.URLError(ConnectionRefusedError(111, "refused"))
        n = len(body)
        if method == "HEAD":
            return Response(url, b"", n, None)
        if fault == "truncated":
            return Response(url, body[:n // 2], n, None)
        if fault == "corrupt":
            b = bytearray(body)
            b[n // 3] ^= 0x10
            return Response(url, bytes(b), n, None)
        if fault == "reset":
            def hook(pos, got):
                raise ConnectionResetError(104, "reset by peer")
            return Response(url, body[:n // 2], n, hook)
        return Response(url, body, n, None)

    def gets(self):
        return [u for u, _ in self.log]

    def __enter__(self):
        self.keep = urllib.request.urlopen
        urllib.request.urlopen = self.urlopen
        return self

    def __exit__(self, *a):
        urllib.request.urlopen = self.keep
        urllib.request.urlcleanup()
