"""A scripted SNMP agent for the demonstrations."""
import hashlib
import os
import socket
import sys
import threading

sys.path.insert(0, os.path.join(os.getcwd(), "src"))


# BER
def ln(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, "big")
    return bytes([0x80 | len(b)]) + b


def tlv(t, *c):
    c = b"".join(c)
    return bytes([t]) + ln(len(c)) + c


def integer(v, t=2):
    n = 1
    while not -(1 << (8 * n - 1)) <= v < 1 << (8 * n - 1):
        n += 1
    return tlv(t, v.to_bytes(n, "big", signed=True))


def octets(b):
    return tlv(4, b)


def seq(*c):
    return tlv(0x30, *c)


def oid_octets(s):
    a = [int(x) for x in s.split(".")]
    r = b""
    for v in [40 * a[0] + a[1]] + a[2:]:
        x = [v & 0x7F]
        while v > 0x7F:
            v >>= 7
            x.insert(0, 0x80 | v & 0x7F)
        r += bytes(x)
    return r


def oid(s):
    return tlv(6, oid_octets(s))


def oid_text(b):
    r, v = [], 0
    for x in b:
        v = v << 7 | x & 0x7F
        if not x & 0x80:
            r.append(v)
            v = 0
    f = min(r[0] // 40, 2)
    return ".".join(map(str, [f, r[0] - 40 * f] + r[1:]))


NULL = b"\x05\x00"


def parse(b, pos=0):
    """One element: (tag, contents, start of the contents, the end)."""
    t, n, p = b[pos], b[pos + 1], pos + 2
    if n & 0x80:
        k = n & 0x7F
        n = int.from_bytes(b[p : p + k], "big")
        p += k
    if p + n > len(b):
        raise ValueError("too long")
    return t, b[p : p + n], p, p + n


def items(b):
    r, p = [], 0
    while p < len(b):
        e = parse(b, p)
        r.append(e)
        p = e[3]
    return r


def num(b):
    return int.from_bytes(b, "big", signed=True)


class Req:
    """A request, decoded. The octets after the scoped PDU are the padding."""

    def __init__(self, data, decrypt=None):
        self.data = data
        t, body, s0, end = parse(data)
        assert t == 0x30 and end == len(data), "not one message"
        f = items(body)
        self.version = num(f[0][1])
        if self.version < 3:
            self.community = f[1][1]
            pdu = f[2]
        else:
            g = items(f[1][1])
            self.msgid, self.maxsize, self.flags, self.model = num(g[0][1]), num(g[1][1]), g[2][1][0], num(g[3][1])
            u = items(parse(f[2][1])[1])
            self.engine, self.boots, self.time, self.user, self.mac, self.salt = u[0][1], num(u[1][1]), num(u[2][1]), u[3][1], u[4][1], u[5][1]
            # Where the MAC is
            self.macpos = s0 + f[2][2] + parse(f[2][1])[2] + u[4][2]
            self.clear = None
            if self.flags & 2:
                self.cipher = f[3][1]
                self.clear = decrypt(self, f[3][1]) if decrypt else None
                if self.clear is None:
                    return
                sp = parse(self.clear)
                self.padding = self.clear[sp[3] :]
            else:
                sp = f[3]
            h = items(sp[1])
            self.context = h[0][1]
            pdu = h[2]
        self.pdu = pdu[0]
        p = items(pdu[1])
        self.rid, self.f1, self.f2 = num(p[0][1]), num(p[1][1]), num(p[2][1])
        self.oids = [oid_text(items(v[1])[0][1]) for v in items(p[3][1])]
        self.values = [items(v[1])[1][:2] for v in items(p[3][1])]


def vb(name, value):
    return seq(oid(name), value)


def pdu(rid, vbs, tag=0xA2, err=0, idx=0):
    return tlv(tag, integer(rid), integer(err), integer(idx), seq(*vbs))


def msg(q, vbs, rid=None, community=None, version=None, **kw):
    """v1, v2c reply"""
    return seq(integer(q.version if version is None else version), octets(q.community if community is None else community), pdu(q.rid if rid is None else rid, vbs, **kw))


# USM
def master(alg, password):
    n = 1 << 20
    return hashlib.new(alg, (password * (n // len(password) + 1))[:n]).digest()


def localized(alg, key, engine):
    return hashlib.new(alg, key + engine + key).digest()


def hmac96(alg, key, data):
    import hmac

    return hmac.new(key, data, alg).digest()[:12]


def v3msg(q, vbs, engine, boots, time, user=None, flags=0, key=None, alg="md5", rid=None, msgid=None, tag=0xA2, encrypt=None, mac=None, scoped=None, salt=b"", mflags=None):
    """encrypt: clear -> (salt, cipher text)"""
    s = seq(octets(engine), octets(b""), pdu(q.rid if rid is None else rid, vbs, tag)) if scoped is None else scoped
    if encrypt:
        salt, ct = encrypt(s)
        s = octets(ct)

    def make(m):
        return seq(
            integer(3),
            seq(integer(q.msgid if msgid is None else msgid), integer(65507), octets(bytes([flags if mflags is None else mflags])), integer(3)),
            octets(seq(octets(engine), integer(boots), integer(time), octets(q.user if user is None else user), octets(m), octets(salt))),
            s,
        )

    if not flags & 1:
        return make(mac or b"")
    if mac is not None:
        return make(mac)
    return make(hmac96(alg, key, make(b"\0" * 12)))


def openssl(args, data):
    import subprocess

    return subprocess.run(["openssl", "enc"] + args, input=data, stdout=subprocess.PIPE, check=True).stdout


def aes_iv(boots, time, salt):
    return (boots & 0xFFFFFFFF).to_bytes(4, "big") + (time & 0xFFFFFFFF).to_bytes(4, "big") + salt


def aes(key, iv, data, dec=False):
    return openssl(["-aes-128-cfb", "-K", key[:16].hex(), "-iv", iv.hex(), "-nopad"] + (["-d"] if dec else []), data)


def des(key, salt, data, dec=False):
    iv = bytes(a ^ b for a, b in zip(key[8:16], salt))
    return openssl(["-des-cbc", "-K", key[:8].hex(), "-iv", iv.hex(), "-nopad", "-provider", "legacy", "-provider", "default"] + (["-d"] if dec else []), data)


class Agent:
    """handler(data) -> list of datagrams to be sent back."""

    def __init__(self, handler):
        self.sock = socket.socket(socket.AF_INET, socket.SOCK_DGRAM)
        self.sock.bind(("127.0.0.1", 0))
        self.port = self.sock.getsockname()[1]
        self.handler = handler
        self.seen = []
        self.peer = None
        self.error = None
        threading.Thread(target=self.run, daemon=True).start()

    def run(self):
        while True:
            data, self.peer = self.sock.recvfrom(65535)
            self.seen.append(data)
            try:
                for r in self.handler(data) or ():
                    self.sock.sendto(r, self.peer)
            except Exception as e:
                self.error = e
                print("agent:", type(e).__name__, e, file=sys.stderr)


def check(cond, what):
    if not cond:
        print("FAILED:", what)
        sys.stdout.flush()
        os._exit(1)


def done():
    print("ok")
    sys.stdout.flush()
    os._exit(0)
