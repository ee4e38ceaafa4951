"""Import fingerprints, implemented independently of the code under test:
SHA-1 over length-prefixed values, in unpadded standard base64."""
import base64, hashlib, struct
from decimal import Decimal


class Acc:
    def __init__(self, b=b""):
        self.b = b

    def raw(self, b):
        return Acc(self.b + b)

    def s(self, v):
        e = v.encode("utf-8")
        return self.raw(struct.pack(">Q", len(e)) + e)

    def i32(self, v):
        return self.raw(struct.pack(">i", v))

    def u64(self, v):
        return self.raw(struct.pack(">Q", v))

    def date(self, d):
        y, m, dd = map(int, d.split("-"))
        return self.raw(struct.pack(">QiII", 12, y, m, dd))

    def time(self, t):
        h, m, s = map(int, t.split(":"))
        return self.raw(struct.pack(">QIIII", 16, h, m, s, 0))

    def amount(self, a):
        name = a["c"].encode("utf-8")
        return self.raw(struct.pack(">Q", 17 + len(name)) + decimal_bytes(a["q"]) + (b"\x01" if a["l"] else b"\x02")).s(a["c"])

    def opt(self, f, v):
        return self.raw(b"\x00") if v is None else f(self.raw(b"\x01"), v)

    def value(self):
        return base64.b64encode(hashlib.sha1(self.b).digest()).decode().rstrip("=")


def decimal_bytes(q):
    """The 16-byte form of a decimal: flags, then a 96-bit integer."""
    neg = q.startswith("-")
    digits = q.lstrip("-")
    ip, _, fp = digits.partition(".")
    n = int(ip + fp)
    return struct.pack("<IIII", (len(fp) << 16) | (0x80000000 if neg else 0), n & 0xFFFFFFFF, (n >> 32) & 0xFFFFFFFF, n >> 64)


def generated_ns(account):
    return Acc().s("Nationwide").s(account).value()[:8]


def tag(algo, ns, acc):
    return "fp-%s.1.%s-%s" % (algo, ns, acc.value())


def legacy(ns, acc):
    return "fp-%s-%s" % (ns, acc.value())
