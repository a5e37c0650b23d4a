"""Texts and byte strings that some code might treat specially: as values of headers, parameters and attached
data, as bodies, error texts, files. No expectation is computed here: they are just values."""

import gen_data
import harvest

MARKUP = ["<p>x</p>", "<script>1</script>", "&amp;", "<!-- x -->", "<?xml version=\"1.0\"?>", "<!DOCTYPE html>", "{\"a\":1}", "{\"error\":\"x\"}", "[1,2]", "[]", "{}", "\"x\"", "'x'",
          "{0}", "{:?}", "{{}}", "%s", "%d", "%(a)s", "${x}", "$x", "#{x}", "\\n", "\\", "\\\\", "\\u0041", "\\x41", "`x`", "../x", "/etc/x", "C:\\x", "http://x/", "//x", "?a=1", "#x", "a=1", "a=1&b=2",
          "x-one: y", "x: y", "a; b=c", "a;b", "a,b", "a, b", "a|b", "a b", "text/html", "text/plain; charset=utf-8", "application/json", "no-cache", "gzip", "chunked", "close", "keep-alive", "max-age=0",
          "W/\"x\"", "\"etag\"", "*", "bytes 0-1/2", "Wed, 21 Oct 2015 07:28:00 GMT", "Basic x", "GET / HTTP/1.1", "HTTP/1.1 200 OK", "200", "404", "500", "200 OK", "404 Not Found", "Not Found",
          "Internal Server Error", "OK", "ok", "error", "Error", "panic", "null", "None", "undefined", "true", "false", "0", "1", "-1", "NaN", "default", "empty", "x" * 79, "x" * 80, "x" * 81]
SPACED = [" ", "  ", " x", "x ", "\t", "\tx", "x\n", "\nx", "x\r\n", "a\nb", "a\r\nb", "\n", "\r\n", "\r", "a\n\nb", "\u00a0", "\u3000x", "\u2028", "\u0085", "\ufeff", "\ufeffx", "x\ufeff", "\u200bx", "\u200d"]
STRANGE = ["\u00e9", "e\u0301", "\u00c9", "\u00df", "\u0130", "\ufb00", "\u65e5\u672c\u8a9e", "\U0001f600", "\U0001f468\u200d\U0001f469", "\u202ex", "\ud7ff", "\ue000", "\ufffd", "\uffff", "\U0010ffff",
           "\u0000", "a\u0000b", "\u0000\u0000\u0000\u0000", "x\u0000", "\u0001", "\u007f", "\u0080", "\u001b[31mx"]
TEXTS = list(dict.fromkeys(MARKUP + SPACED + STRANGE + gen_data.MAGIC + gen_data.WORDS + [a for c in "!\"#$%&'()*+,-./:;<=>?@[]^_`{|}~" for a in (c, c + c, "x" + c, c + "x", "x%sy" % c)]))
TEXTS = [t for t in dict.fromkeys(TEXTS + harvest.TEXTS) if t and t[0] not in "@%"]
FRESH = set(harvest.TEXTS) | {"%" + t.encode().hex() for t in harvest.TEXTS}
LENGTHS = set(harvest.sizes(300000))


def is_fresh(item):
    """Does it have a literal of the source under test in it (see harvest), or its size?"""
    if isinstance(item, (list, tuple)):
        return any(is_fresh(x) for x in item)
    if isinstance(item, bytes):
        return item.decode("utf-8", "replace") in FRESH
    if isinstance(item, int):
        return item in LENGTHS
    return isinstance(item, str) and (item in FRESH or len(item) > 60 and len(item) in LENGTHS or item[:1] == "@" and item[1:].split(":")[0] in {str(n) for n in LENGTHS})



BINARY = [bytes(16), b"\0", b"x" + bytes(4), bytes(4) + b"x", b"\xff", b"\xff\xfe", b"\xfe\xff", b"\xff" * 8, b"\xef\xbb\xbf", b"\xef\xbb\xbfx", b"\xff\xfex\0", b"\x1f\x8b\x08\0\0\0\0\0", b"\x1f\x8b", b"\x89PNG\r\n\x1a\n",
          b"GIF89a", b"\xff\xd8\xff\xe0", b"%PDF-1.4\n", b"PK\x03\x04", b"\x7fELF", b"BM", b"RIFF", b"\xca\xfe\xba\xbe", b"MZ", b"#!/bin/sh\n", b"<?php x", b"BZh9", b"\xfd7zXZ\0", b"\x28\xb5\x2f\xfd",
          b"\xe9", b"caf\xe9", b"a\xff", b"\xc3", b"\xe6\x97", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"x\n", b"x\r\n", b"a\r\nb", b"a\nb\n", b"\n", b"\r\n\r\n", b"0\r\n\r\n", b"5\r\nhello\r\n0\r\n\r\n",
          b"HTTP/1.1 200 OK\r\n\r\nx", b"x\x1a", b"\x04", b"\0x\0", bytes(range(256)), bytes(reversed(range(256))), b"--x\r\n", b"\x00\x01\x02", b"a" * 255 + b"\0"]
SIZES = list(range(0, 40)) + [s + d for s in (64, 80, 100, 128, 255, 400, 512, 1000, 1024, 1460, 2048, 3000, 4096, 8192, 16384, 32768, 65536) for d in (-1, 0, 1)]
SIZES = list(dict.fromkeys(SIZES + harvest.sizes(300000)))


def code(b):
    """As the executor's and common.expand's notation."""
    if isinstance(b, str):
        return b if b[:1] not in ("@", "%") else "%" + b.encode().hex()
    return "%" + b.hex()


def headers(longer=True):
    """Values a header can have, as texts."""
    out = [t for t in TEXTS if t == t.strip() and all(c == "\t" or 32 <= ord(c) != 127 for c in t)]
    return out + ["v" * n for n in harvest.sizes(2999 if longer else 400)] + ["v" * n for n in ((255, 256, 257, 1023, 1024, 1025, 2049, 2999) if longer else (255, 256, 257))]


def uri(t):
    """The text for a query or a path segment: as it is where that can be, or escaped."""
    ok = set("!$&'()*+,-.:;=@_~|")
    return "".join(c if c.isascii() and (c.isalnum() or c in ok) else "".join("%%%02x" % b for b in c.encode()) for c in t)
