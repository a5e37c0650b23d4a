"""Request headers that no answer may depend on."""

NOISE = {
    "user-agent": ["curl/7.68.0", "", "%e9e8ff", "Mozilla/5.0 (X11; Linux x86_64)", "kube-probe/1.20", "@700:1", "%c3a9"],
    "referer": ["http://localhost/", "", "%fffe", "/a"], "cookie": ["a=b; c=d", "", "%80", "@3000:2"],
    "authorization": ["Basic Zm9vOmJhcg==", "Bearer x.y.z", "", "%ff"], "content-type": ["application/json", "application/x-www-form-urlencoded",
        "multipart/form-data; boundary=x", "", "text/plain; charset=latin1", "%e9"],
    "accept-encoding": ["gzip, deflate, br", "identity", "*;q=0", ""], "accept-language": ["en", "%e9"], "range": ["bytes=0-1", "bytes=5-", "x"],
    "if-none-match": ["*", "\"abc\"", "W/\"abc\""], "if-modified-since": ["Wed, 21 Oct 2015 07:28:00 GMT", "Tue, 01 Jan 2030 00:00:00 GMT", "x"],
    "if-match": ["*", "\"none\""], "x-forwarded-for": ["127.0.0.1", "1.2.3.4, 5.6.7.8", "%ff"], "x-forwarded-proto": ["https"],
    "x-forwarded-host": ["example.com"], "x-forwarded-prefix": ["/a"], "x-http-method-override": ["DELETE", "GET", "PUT", ""],
    "x-method-override": ["DELETE"], "x-original-url": ["/a", "/"], "x-rewrite-url": ["/a/b"], "x-request-id": ["1", "%ff", ""],
    "connection": ["keep-alive", "Keep-Alive", "keep-alive, x-a", "TE", "x-foo"], "keep-alive": ["timeout=5, max=100"], "x-long": ["@1025:3", "@2999:4"],
    "origin": ["http://example.com", "null"], "access-control-request-method": ["PUT"], "x-requested-with": ["XMLHttpRequest"],
    "forwarded": ["for=1.2.3.4;proto=https"], "via": ["1.1 x"], "dnt": ["1"], "pragma": ["no-cache"], "x-debug": ["1"], "te": ["trailers"],
    "max-forwards": ["0"], "from": ["a@b"], "upgrade-insecure-requests": ["1"], "traceparent": ["00-0-0-00"], "x-log-level": ["debug"],
    "upgrade": ["h2c", "websocket"], "date": ["Wed, 21 Oct 2015 07:28:00 GMT"], "trailer": ["x-a"], "proxy-connection": ["keep-alive"], "http2-settings": ["AAMAAABkAAQAAP__"],
    "expect": ["100-continue"], "sec-fetch-mode": ["navigate"], "sec-websocket-key": ["dGhlIHNhbXBsZSBub25jZQ=="], "x-real-ip": ["::1"], "x-csrf-token": ["x"], "priority": ["u=1, i"],
    "x-state": ["x"], "x-accel-redirect": ["/a"], "content-encoding": ["identity"], "content-language": ["en"], "content-md5": ["x"], "digest": ["sha-256=x"], "idempotency-key": ["1", "2"],
}

import harvest

FRESH = {n: ([n, "", "1", "true", "x", "/a", "DELETE"] + harvest.header_values())[:60] for n in harvest.names()}
ANY = [v for v in harvest.header_values() if len(v) < 300]


def noise(r, p=0.4):
    """Headers that must make no difference."""
    if FRESH and r.random() < 0.5:
        # headers the source under test may look at
        return [[n, r.choice(FRESH[n])] for n in r.sample(sorted(FRESH), min(len(FRESH), r.choice([1, 1, 2])))]
    if ANY and r.random() < 0.25:
        return [[r.choice(["accept", "x-a1", "user-agent", "cookie", "content-type", "accept-encoding"]), r.choice(ANY)]]
    if r.random() > p:
        return []
    return [[n.title() if r.random() < 0.2 else n, r.choice(NOISE[n])] for n in r.sample(sorted(NOISE), r.choice([1, 1, 2, 4, 12]))]
