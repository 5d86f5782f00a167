"""REST requests: URL composition, forwarded arguments, rejected methods, error statuses and the live probe."""
import types

BOUNDS = ("URLs of 0 to 5 and APIs of 0 to 5 symbolic printable characters, methods of 2 to 8 symbolic printable characters, a symbolic status from 100 to 599 or one of 5 exceptions, "
          "every combination of listed empty and non-empty arguments, histories of 3 requests by two clients")
ASSUMPTIONS = ["requests is a recorder that answers with a symbolic status or an exception, as documented for requests.request, requests.get and the like and requests.Session", "characters are printable ASCII"]

NAMES = ("delete", "get", "head", "options", "patch", "post", "put")


class RequestException(IOError):
    pass


class HTTPError(RequestException):
    pass


class ConnectionError_(RequestException):
    pass


class Timeout(RequestException):
    pass


class ConnectTimeout(ConnectionError_, Timeout):
    pass


class ReadTimeout(Timeout):
    pass


class InvalidURL(RequestException, ValueError):
    pass


class Odd(Exception):
    pass


FAULTS = [ConnectionError_, ConnectTimeout, ReadTimeout, InvalidURL, Odd]
KEYS = ("params", "data", "headers", "cookies", "files", "auth", "timeout", "allow_redirects", "proxies", "hooks", "stream", "verify", "cert", "json")


def server(c, outcome):
    """module requests that records requests; outcome(k) gives the status or the exception of request k"""
    m = types.ModuleType("requests")
    m.sent = []

    class Response:
        def __init__(self, status):
            self.status_code, self.closed = status, False

        def raise_for_status(self):
            if c.both(self.status_code >= 400, self.status_code < 600):
                raise HTTPError("status")

        @property
        def ok(self):
            return not bool(c.both(self.status_code >= 400, self.status_code < 600))

        def __bool__(self): return self.ok
        def close(self): self.closed = True
        def __enter__(self): return self
        def __exit__(self, *a): self.close()

    def request(method, url, params=None, data=None, headers=None, cookies=None, files=None, auth=None, timeout=None, allow_redirects=None, proxies=None, hooks=None, stream=None, verify=None,
                cert=None, json=None):
        a = dict(locals())
        a.pop("a", None)
        m.sent.append({k: a[k] for k in ("method", "url") + KEYS})
        o = outcome(len(m.sent) - 1)
        if isinstance(o, type):
            raise o("fault")
        r = Response(o)
        m.sent[-1]["response"] = r
        return r

    class Session:
        def __init__(self): self.proxies, self.headers, self.auth, self.params, self.verify, self.cert, self.trust_env = {}, {}, None, {}, True, None, True
        def __enter__(self): return self
        def __exit__(self, *a): pass
        def close(self): pass
        def mount(self, *a): pass

        def request(self, method, url, **k):
            for n in ("proxies", "headers", "params"):
                v = getattr(self, n)
                if v:
                    k[n] = dict(v, **(k.get(n) or {}))
            if self.auth is not None and k.get("auth") is None:
                k["auth"] = self.auth
            return request(method, url, **k)
    for n in NAMES:
        setattr(m, n, lambda url, *a, _n=n, **k: request(_n, url, **dict(zip({"get": ("params",), "post": ("data", "json"), "put": ("data",), "patch": ("data",)}.get(_n, ()), a), **k)))
        setattr(Session, n, lambda self, url, *a, _n=n, **k: self.request(_n, url, **dict(zip({"get": ("params",), "post": ("data", "json"), "put": ("data",), "patch": ("data",)}.get(_n, ()), a), **k)))
    x = types.ModuleType("requests.exceptions")
    for n, e in dict(RequestException=RequestException, HTTPError=HTTPError, ConnectionError=ConnectionError_, Timeout=Timeout, ConnectTimeout=ConnectTimeout, ReadTimeout=ReadTimeout, InvalidURL=InvalidURL).items():
        setattr(m, n, e)
        setattr(x, n, e)
    m.exceptions, m.request, m.Response, m.Session, m.session = x, request, Response, Session, Session
    m.models = types.ModuleType("requests.models")
    m.models.Response = Response
    c.stub("requests", m)
    c.stub("requests.exceptions", x)
    return m


def start(c, outcome=lambda k: 200):
    m = server(c, outcome)
    c.use_text()
    return m, c.module("diamondback.commons.rest_client").RestClient


def trim(c, s, left=True):
    """without slashes around"""
    return s.strip("/") if left else s.rstrip("/")


def lower(c, s):
    return s.lower()


def compose(c, nurl, napi, minurl=1):
    """the URL of a request is the URL without trailing slash, one slash, and the API without surrounding slashes"""
    m, R = start(c)
    url = c.text("url", nurl, minurl)
    api = c.text("api", napi)
    c.assume(c.letters(url)[0] != 47)
    r = R()
    r.url = url
    r.request("get", api)
    want = trim(c, url, False)
    a = trim(c, api)
    if len(a):
        want = want + "/" + a
    c.check(len(m.sent) == 1, "sent once")
    c.check(c.same_text(m.sent[0]["url"], want), "composed URL")
    c.check(c.same_text(r.url, trim(c, url, False)), "URL as assigned")
    r.live
    c.check(len(m.sent) == 2, "live sends once")
    c.check(c.same_text(m.sent[1]["url"], trim(c, url, False)), "live URL")


def default(c, napi):
    """the default URL, timeout and proxies"""
    m, R = start(c)
    api = c.text("api", napi)
    r = R()
    r.request("get", api)
    a = trim(c, api)
    c.check(c.same_text(m.sent[0]["url"], "http://127.0.0.1:8080" + ("/" + a if len(a) else "")), "default URL")
    c.check(m.sent[0]["timeout"] == (10.0, 60.0), "default timeout")
    c.check(not m.sent[0]["proxies"], "no proxies by default")


def method(c, n):
    """any letter case of a known method is sent, any other method is rejected without sending"""
    m, R = start(c)
    w = c.text("method", n, n)
    r = R()
    low = lower(c, w)
    known = c.any([c.same_text(low, k) for k in NAMES])
    body = c.choice("body", 3)
    kw = [dict(), dict(data="d"), dict(json={"a": 1})][body]
    if c.raises(lambda: r.request(w, "x", **kw), ValueError):
        c.check(c.no(known), "known method rejected")
        c.check(len(m.sent) == 0, "nothing sent for a rejected method")
    else:
        c.check(known, "unknown method accepted")
        c.check(len(m.sent) == 1, "sent once")
        c.check(c.same_text(lower(c, m.sent[0]["method"]), low), "method")


def known(c):
    """known methods with every letter in either case"""
    m, R = start(c)
    name = NAMES[c.choice("name", len(NAMES))]
    w = ""
    for k, ch in enumerate(name):
        v = c.int("u[%d]" % k, 0, 1)
        w = w + one(c, ord(ch) - 32 * v)
    R().request(w, "a/b")
    c.check(len(m.sent) == 1, "sent once")
    c.check(c.same_text(lower(c, m.sent[0]["method"]), name), "method")


def one(c, code):
    if c.symbolic:
        from engine import text
        return text.mkstr([code])
    return chr(code)


DATA = [None, b"", b"\x00", "x", {"d": "1"}, {}, [("d", "1")], 0]
JSON = [None, {}, [], 0, False, "", {"j": 1}, [1], "x", 7]
ITEM = [None, {}, {"p": "1"}, [("p", "1"), ("p", "2")]]
HEAD = [None, {}, {"h": "1"}]
AUTH = [None, ("user", "pass"), object()]
PROXY = [None, {}, {"http": "", "https": ""}, {"http": "p"}]
TIME = [None, (1.0, 2.0), 5, 0.5]


def same(a, b, empty=False):
    """the same argument, or both mean nothing"""
    if empty and not a and not b:
        return True
    return a is b or (type(a) is type(b) and a == b)


def arguments(c, group):
    """arguments reach the server unchanged; data together with JSON is rejected"""
    m, R = start(c)
    r = R()
    name = NAMES[c.choice("name", len(NAMES))] if group == "body" else "post"
    a = dict(data=None, json=None, item=None, header=None, auth=None)
    if group == "body":
        a["data"], a["json"] = DATA[c.choice("data", len(DATA))], JSON[c.choice("json", len(JSON))]
    if group == "other":
        a["item"], a["header"], a["auth"] = ITEM[c.choice("item", len(ITEM))], HEAD[c.choice("header", len(HEAD))], AUTH[c.choice("auth", len(AUTH))]
        r.proxy = PROXY[c.choice("proxy", len(PROXY))]
        r.timeout = TIME[c.choice("timeout", len(TIME))]
    if group == "cross":
        name = NAMES[c.choice("name", len(NAMES))]
        for k, v in dict(data="d", json={"j": 1}, item={"p": "1"}, header={"h": "1"}, auth=("u", "p")).items():
            a[k] = v if c.flag(k) else None
    copy = {k: v if isinstance(v, (int, str, bytes, tuple, type(None))) or type(v) is object else type(v)(v) for k, v in a.items()}
    explicit = c.flag("explicit")
    kw = dict(a) if explicit else {k: v for k, v in a.items() if v is not None}
    try:
        v = r.request(name, "x", **kw)
        rejected = False
    except ValueError:
        rejected = True
    c.check(rejected == bool(a["data"] and a["json"]), "data and JSON together are rejected")
    c.check(len(m.sent) == (0 if rejected else 1), "sent exactly when accepted")
    for k in a:
        c.check(same(a[k], copy[k]), "argument left unchanged")
    if rejected:
        return
    s = m.sent[0]
    c.check(same(s["data"], a["data"], True), "data")
    c.check(same(s["json"], a["json"], bool(a["data"])), "JSON")
    c.check(same(s["params"], a["item"], True), "parameters")
    c.check(same(s["headers"], a["header"], True), "headers")
    c.check(same(s["auth"], a["auth"], True), "auth")
    c.check(same(s["proxies"], r.proxy, True), "proxies")
    c.check(same(s["timeout"], r.timeout), "timeout")
    c.check(not s["stream"] and not s["files"] and not s["cookies"], "nothing else is sent")
    c.check(s["verify"] in (None, True), "certificates are verified")
    c.check(v is s["response"], "the response is returned")


def outcome(c, what):
    """error statuses and faults"""
    k = c.choice("fault", len(FAULTS) + 1)
    status = c.int("status", 100, 599)
    m, R = start(c, lambda n: status if k == len(FAULTS) else FAULTS[k])
    r = R()
    r.url = "http://h/"
    r.timeout, r.proxy = (1.0, 2.0), {"http": "p"}
    if what == "live":
        v = r.live
        c.check(v is (k == len(FAULTS)), "live")
        c.check(len(m.sent) == 1, "sent once")
        s = m.sent[0]
        c.check(lower(c, s["method"]) == "head", "a head request")
        c.check(c.same_text(s["url"], "http://h"), "URL")
        c.check(s["timeout"] == (1.0, 2.0) and s["proxies"] == {"http": "p"}, "timeout and proxies")
        c.check(all(not s[n] for n in ("data", "json", "params", "headers", "auth")), "nothing else is sent")
        return
    name = NAMES[c.choice("name", len(NAMES))]
    err = None
    try:
        v = r.request(name, "x")
    except Exception as e:
        err = e
    c.check(len(m.sent) == 1, "sent once")
    if k < len(FAULTS):
        c.check(type(err) is FAULTS[k], "the fault is raised")
    else:
        bad = status >= 400
        c.check(bad if err is not None else c.no(bad), "error statuses raise, others do not")
        if err is None:
            c.check(c.both(v is m.sent[0]["response"], v.status_code == status), "the response is returned")
        else:
            c.check(isinstance(err, HTTPError), "the status error is raised")


def history(c):
    """clients do not influence each other, and a failed request does not influence the next"""
    st = [c.int("s%d" % k, 200, 599) for k in range(3)]
    m, R = start(c, lambda n: st[min(n, 2)])
    a, b = R(), R()
    a.url, a.timeout, a.proxy = "http://a", 1.0, {"http": "a"}
    who = [c.flag("w%d" % k) for k in range(3)]
    for k in range(3):
        r = a if who[k] else b
        api = "k%d" % k
        item = {"k": str(k)} if k != 1 else None
        head = {"h": "0"} if k == 0 else None
        auth = ("u", "p") if k == 1 else None
        data = "d" if k == 1 else None
        err = c.raises(lambda: r.request("get", api, item=item, header=head, auth=auth, data=data), HTTPError)
        c.check(st[k] >= 400 if err else c.no(st[k] >= 400), "error statuses raise")
        if k == 1:
            a.timeout = 3.0
        s = m.sent[-1]
        c.check(len(m.sent) == k + 1, "sent once each")
        c.check(c.same_text(s["url"], ("http://a/" if who[k] else "http://127.0.0.1:8080/") + api), "URL of each client")
        c.check(s["timeout"] == ((3.0 if k == 2 else 1.0) if who[k] else (10.0, 60.0)), "timeout of each client")
        c.check((s["proxies"] == {"http": "a"}) if who[k] else not s["proxies"], "proxies of each client")
        c.check(same(s["params"], item, True), "parameters of each request")
        c.check(same(s["headers"], head, True) and same(s["auth"], auth, True) and same(s["data"], data, True), "arguments of each request")
    c.check(a.live is True, "live after any status")
    c.check(c.same_text(m.sent[-1]["url"], "http://a") and all(not m.sent[-1][n] for n in ("params", "headers", "auth", "data", "json")), "live sends nothing of earlier requests")


def probes(c):
    """every probe asks the service as it is then, whatever was sent before"""
    up = [c.flag("up%d" % k) for k in range(4)]
    m, R = start(c, lambda n: 200 if up[n] else ConnectionError_)
    a, b = R(), R()
    for k in range(4):
        r = b if k == 1 else a
        url = "http://127.0.0.1:8080"
        if k == 3:
            r.url = url = "http://other"
        if k == 2 and c.flag("request"):
            c.check(c.raises(lambda: r.request("get", "x"), ConnectionError_) is not up[k], "a fault is raised")
            url += "/x"
        else:
            c.check(r.live is up[k], "live as the service is then")
        c.check(len(m.sent) == k + 1, "sent once each")
        c.check(c.same_text(m.sent[-1]["url"], url), "URL of each")


def instances(tier):
    out = []

    def add(name, fn, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, budget=200, max_paths=6000))
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        add("compose url %d" % n, "compose", nurl=n, minurl=n, napi=3 if tier == "quick" else 5)
    add("default url", "default", napi=5)
    for n in range(1, 9):
        add("method of %d" % n, "method", n=n)
    add("known methods", "known")
    add("bodies", "arguments", group="body")
    add("other arguments", "arguments", group="other")
    add("combined arguments", "arguments", group="cross")
    add("request outcome", "outcome", what="request")
    add("live outcome", "outcome", what="live")
    add("history", "history")
    add("probes", "probes")
    return out
