"""A small TLS 1.3 server side for demonstrations: drives libturtls.so through ctypes."""
import ctypes, hashlib, hmac, os, signal, struct, sys, json

# ---------------------------------------------------------------- P-256
P = 2**256 - 2**224 + 2**192 + 2**96 - 1
N = 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551
A = P - 3
G = (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
     0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5)

def add(p, q):
    if p is None: return q
    if q is None: return p
    if p[0] == q[0]:
        if (p[1] + q[1]) % P == 0: return None
        l = (3 * p[0] * p[0] + A) * pow(2 * p[1], -1, P) % P
    else:
        l = (q[1] - p[1]) * pow(q[0] - p[0], -1, P) % P
    x = (l * l - p[0] - q[0]) % P
    return x, (l * (p[0] - x) - p[1]) % P

def mul(k, p):
    r = None
    while k:
        if k & 1: r = add(r, p)
        p = add(p, p); k >>= 1
    return r

# ---------------------------------------------------------------- AEADs
def _sbox():
    p = q = 1; s = [0] * 256
    while True:
        p = p ^ ((p << 1) & 255) ^ (0x1b if p & 128 else 0)
        q ^= q << 1; q ^= q << 2; q ^= q << 4; q &= 255
        if q & 128: q ^= 9
        r = lambda x, n: ((x << n) | (x >> (8 - n))) & 255
        s[p] = q ^ r(q, 1) ^ r(q, 2) ^ r(q, 3) ^ r(q, 4) ^ 0x63
        if p == 1: break
    s[0] = 0x63
    return s
SBOX = _sbox()

def _expand(key):
    w = [list(key[i:i + 4]) for i in range(0, 16, 4)]; rc = 1
    for i in range(4, 44):
        t = w[-1][:]
        if i % 4 == 0:
            t = [SBOX[x] for x in t[1:] + t[:1]]; t[0] ^= rc
            rc = (rc << 1) ^ (0x11b if rc & 128 else 0)
        w.append([a ^ b for a, b in zip(w[i - 4], t)])
    return [sum(w[i:i + 4], []) for i in range(0, 44, 4)]

def _aes(rk, b):
    x2 = lambda a: ((a << 1) ^ (0x11b if a & 128 else 0))
    s = [a ^ k for a, k in zip(b, rk[0])]
    for n in range(1, 11):
        s = [SBOX[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if n < 10:
            o = []
            for c in range(0, 16, 4):
                a = s[c:c + 4]; t = a[0] ^ a[1] ^ a[2] ^ a[3]
                o += [a[i] ^ t ^ x2(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = o
        s = [a ^ k for a, k in zip(s, rk[n])]
    return bytes(s)

def _gcm(key, nonce, ad, data, enc):
    rk = _expand(key); h = int.from_bytes(_aes(rk, bytes(16)), 'big')
    def gm(x, y):
        z = 0
        for i in range(127, -1, -1):
            if (x >> i) & 1: z ^= y
            y = (y >> 1) ^ (0xe1 << 120 if y & 1 else 0)
        return z
    out = bytearray()
    for i in range(0, len(data), 16):
        ks = _aes(rk, nonce + struct.pack('>I', i // 16 + 2))
        out += bytes(a ^ b for a, b in zip(data[i:i + 16], ks))
    ct = bytes(out) if enc else data
    y = 0
    pad = lambda b: b + bytes(-len(b) % 16)
    g = pad(ad) + pad(ct) + struct.pack('>QQ', len(ad) * 8, len(ct) * 8)
    for i in range(0, len(g), 16):
        y = gm(y ^ int.from_bytes(g[i:i + 16], 'big'), h)
    t = y ^ int.from_bytes(_aes(rk, nonce + b'\0\0\0\1'), 'big')
    return bytes(out), t.to_bytes(16, 'big')

def _chacha(key, n, nonce):
    s = list(struct.unpack('<16I', b'expand 32-byte k' + key + struct.pack('<I', n) + nonce)); w = s[:]
    def qr(a, b, c, d):
        for x, y, z, r in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
            w[x] = (w[x] + w[y]) & 0xffffffff; v = w[z] ^ w[x]; w[z] = ((v << r) | (v >> (32 - r))) & 0xffffffff
    for _ in range(10):
        for i in range(4): qr(i, 4 + i, 8 + i, 12 + i)
        for i in range(4): qr(i, 4 + (i + 1) % 4, 8 + (i + 2) % 4, 12 + (i + 3) % 4)
    return struct.pack('<16I', *[(a + b) & 0xffffffff for a, b in zip(w, s)])

def _ccp(key, nonce, ad, data, enc):
    out = bytearray()
    for i in range(0, len(data), 64):
        out += bytes(a ^ b for a, b in zip(data[i:i + 64], _chacha(key, 1 + i // 64, nonce)))
    ct = bytes(out) if enc else data
    pad = lambda b: b + bytes(-len(b) % 16)
    m = pad(ad) + pad(ct) + struct.pack('<QQ', len(ad), len(ct))
    k = _chacha(key, 0, nonce)[:32]; r = int.from_bytes(k[:16], 'little') & 0x0ffffffc0ffffffc0ffffffc0fffffff
    a = 0
    for i in range(0, len(m), 16): a = (a + int.from_bytes(m[i:i + 16] + b'\1', 'little')) * r % (2**130 - 5)
    return bytes(out), ((a + int.from_bytes(k[16:], 'little')) % 2**128).to_bytes(16, 'little')

def aead(suite, key, nonce, ad, data, enc=True):
    return (_gcm if suite == 0x1301 else _ccp)(key, nonce, ad, data, enc)

# ---------------------------------------------------------------- key schedule
sha = lambda b: hashlib.sha256(b).digest()
mac = lambda k, m: hmac.new(k, m, 'sha256').digest()
def expand(secret, label, ctx, n):
    label = b'tls13 ' + label
    info = struct.pack('>HB', n, len(label)) + label + bytes([len(ctx)]) + ctx
    o = t = b''; i = 1
    while len(o) < n: t = mac(secret, t + info + bytes([i])); o += t; i += 1
    return o[:n]

class Side:
    def __init__(self, suite, secret):
        self.suite, self.seq = suite, 0
        self.key = expand(secret, b'key', b'', 16 if suite == 0x1301 else 32)
        self.iv = expand(secret, b'iv', b'', 12)
    def nonce(self):
        n = bytes(a ^ b for a, b in zip(self.iv, struct.pack('>IQ', 0, self.seq))); self.seq += 1
        return n
    def seal(self, typ, data, pad=0):
        inner = data + (bytes([typ]) if typ is not None else b'') + bytes(pad)
        hd = struct.pack('>BHH', 23, 0x303, len(inner) + 16)
        c, t = aead(self.suite, self.key, self.nonce(), hd, inner)
        return hd + c + t
    def open(self, rec):
        p, t = None, None
        n = self.nonce()
        p, _ = aead(self.suite, self.key, n, rec[:5], rec[5:-16], False)
        _, t = aead(self.suite, self.key, n, rec[:5], p, True)
        if t != rec[-16:]: raise ValueError('bad record from the client')
        p = p.rstrip(b'\0')
        return p[-1], p[:-1]

def rec(typ, data): return struct.pack('>BHH', typ, 0x303, len(data)) + data
def msg(typ, data): return bytes([typ]) + len(data).to_bytes(3, 'big') + data
def ext(typ, data): return struct.pack('>HH', typ, len(data)) + data
def vec(n, data): return len(data).to_bytes(n, 'big') + data
def ee(*exts): return msg(8, vec(2, b''.join(exts)))
def alpn(name): return ext(16, vec(2, vec(1, name)))
def records(b):
    out = []
    while len(b) >= 5:
        n = 5 + struct.unpack('>H', b[3:5])[0]
        out.append(b[:n]); b = b[n:]
    if b: out.append(b)
    return out

class Hello:
    """The client's hello: payload of the handshake records in `b`."""
    def __init__(self, b):
        self.raw = b''.join(r[5:] for r in records(b) if r[0] == 22)
        h = self.raw; self.ok = len(h) >= 4 and len(h) == 4 + int.from_bytes(h[1:4], 'big')
        if not self.ok: return
        self.random = h[6:38]; p = 38
        n = h[p]; p += 1 + n
        n = int.from_bytes(h[p:p + 2], 'big'); c = h[p + 2:p + 2 + n]; p += 2 + n
        self.suites = [int.from_bytes(c[i:i + 2], 'big') for i in range(0, n, 2)]
        p += 1 + h[p]
        self.exts_len = int.from_bytes(h[p:p + 2], 'big'); p += 2
        self.ok = p + self.exts_len == len(h)
        self.exts = {}
        while p + 4 <= len(h):
            t, n = struct.unpack('>HH', h[p:p + 4]); self.exts[t] = h[p + 4:p + 4 + n]; p += 4 + n
        self.ok &= p == len(h)
        k = self.exts.get(51, b'')
        self.point = (int.from_bytes(k[7:39], 'big'), int.from_bytes(k[39:71], 'big')) if len(k) == 71 else None

class Server:
    """Answers a hello. `priv` is the server's private key, `sh_exts` replaces the extensions."""
    def __init__(self, hello_bytes, suite=None, priv=0x1234567890abcdef, random=b'\x5a' * 32, exts=None, sh=None):
        self.ch = Hello(hello_bytes)
        self.suite = suite or self.ch.suites[0]
        x, y = mul(priv, G)
        self.share = b'\4' + x.to_bytes(32, 'big') + y.to_bytes(32, 'big')
        if exts is None: exts = ext(43, b'\3\4') + ext(51, b'\0\x17' + vec(2, self.share))
        self.sh = sh or msg(2, b'\3\3' + random + b'\0' + struct.pack('>HB', self.suite, 0) + vec(2, exts))
        dh = mul(priv, self.ch.point)[0].to_bytes(32, 'big')
        e = mac(bytes(32), bytes(32))
        hs = mac(expand(e, b'derived', sha(b''), 32), dh)
        th = sha(self.ch.raw + self.sh)
        self.tx = Side(self.suite, expand(hs, b's hs traffic', th, 32))
        self.rx = Side(self.suite, expand(hs, b'c hs traffic', th, 32))
    def hello(self): return rec(22, self.sh)

# ---------------------------------------------------------------- certificates
def der(tag, *c):
    b = b''.join(c)
    if len(b) < 128: return bytes([tag, len(b)]) + b
    l = len(b).to_bytes((len(b).bit_length() + 7) // 8, 'big')
    return bytes([tag, 0x80 | len(l)]) + l + b
ALG = der(0x30, der(6, bytes.fromhex('2a8648ce3d040302')))
def integer(v, n=None):
    b = v.to_bytes(n or max(1, (v.bit_length() + 8) // 8), 'big')
    return der(2, b)
def tbs(version=der(0xa0, der(2, b'\2')), serial=der(2, b'\1'), tail=b''):
    name = der(0x30, der(0x31, der(0x30, der(6, b'\x55\4\3'), der(12, b'demo'))))
    time = der(0x30, der(0x17, b'250101000000Z'), der(0x17, b'350101000000Z'))
    key = der(0x30, der(0x30, der(6, bytes.fromhex('2a8648ce3d0201')), der(6, bytes.fromhex('2a8648ce3d030107'))),
              der(3, b'\0\4' + bytes(64)))
    return der(0x30, version, serial, ALG, name, time, name, key, tail)
def cert(r=2**255 - 19, s=2**254 + 7, t=None, alg=ALG, sig=None, tail=b''):
    return der(0x30, t or tbs(), alg, sig or der(3, b'\0', der(0x30, integer(r), integer(s))), tail)
def cert_msg(*certs, exts=b''):
    return msg(11, b'\0' + vec(3, b''.join(vec(3, c) + vec(2, exts) for c in certs)))

# ---------------------------------------------------------------- the library
W = ctypes.CFUNCTYPE(ctypes.c_ssize_t, ctypes.c_void_p, ctypes.c_size_t, ctypes.c_void_p)
C = ctypes.CFUNCTYPE(None, ctypes.c_void_p)
class Io(ctypes.Structure):
    _fields_ = [('w', W), ('r', W), ('c', C), ('ctx', ctypes.c_void_p)]
class Exts(ctypes.Structure):
    _fields_ = [('name', ctypes.c_char_p), ('sigs', ctypes.c_uint16), ('groups', ctypes.c_uint16),
                ('protos', ctypes.c_char_p), ('protos_len', ctypes.c_size_t)]
class Config(ctypes.Structure):
    _fields_ = [('exts', Exts), ('suites', ctypes.c_uint8)]

class Client:
    """One connection object. `peer(written bytes) -> bytes` answers once, when reading starts."""
    def __init__(self, peer=None):
        L = self.L = ctypes.CDLL(os.path.join(os.getcwd(), 'target/debug/libturtls.so'))
        L.turtls_new.restype = ctypes.c_void_p; L.turtls_new.argtypes = [Io]
        for f in ('turtls_free', 'turtls_close', 'turtls_connect', 'turtls_get_error', 'turtls_get_tls_error',
                  'turtls_get_config', 'turtls_app_proto'):
            getattr(L, f).argtypes = [ctypes.c_void_p]
        L.turtls_get_config.restype = ctypes.POINTER(Config)
        L.turtls_app_proto.restype = ctypes.c_char_p
        L.turtls_stringify_alert.restype = ctypes.c_char_p
        self.cb = (W(self._write), W(self._read), C(self._close))
        self.start(peer)
        self.p = L.turtls_new(Io(*self.cb, None))
        self.cfg = L.turtls_get_config(self.p).contents
    def start(self, peer):
        """A new transport."""
        self.peer, self.inp, self.out, self.closed = peer, None, b'', 0
        self.after_close = b''
        self.rlimit = self.wlimit = lambda n, i: n   # bytes to transfer for call i (0: error)
        self.nr = self.nw = 0
    def _write(self, b, n, _):
        m = min(n, self.wlimit(n, self.nw)); self.nw += 1
        if m <= 0: return 0
        d = ctypes.string_at(b, m); self.out += d
        if self.closed: self.after_close += d
        return m
    def _read(self, b, n, _):
        if self.inp is None: self.inp = self.peer(self.out) if self.peer else b''; self.hello_end = len(self.out)
        m = min(n, self.rlimit(n, self.nr), len(self.inp)); self.nr += 1
        if m <= 0: return 0
        ctypes.memmove(b, self.inp[:m], m); self.inp = self.inp[m:]
        return m
    def _close(self, _): self.closed += 1
    def connect(self): return self.L.turtls_connect(self.p)
    def close(self): self.L.turtls_close(self.p)
    def error(self): return self.L.turtls_get_error(self.p)
    def tls_error(self): return self.L.turtls_get_tls_error(self.p)
    def proto(self): return self.L.turtls_app_proto(self.p)

TLS, PEER, RNG, WANT_READ, WANT_WRITE, ZERO_KEY, MISSING = range(7)

def isolated(f):
    """Runs f() in a child. Returns (its JSON-able result, None) or (None, what killed it).
    Reaching the part of the handshake that is not implemented is ('passed', None)."""
    r, w = os.pipe(); er, ew = os.pipe()
    pid = os.fork()
    if pid == 0:
        signal.alarm(60)
        os.dup2(ew, 2)
        try: v = json.dumps(f())
        except BaseException as e:
            import traceback; traceback.print_exc(); sys.stderr.flush(); os._exit(97)
        os.write(w, v.encode()); os._exit(0)
    os.close(w); os.close(ew)
    out = b''; err = b''
    while True:
        b = os.read(r, 65536)
        if not b: break
        out += b
    while True:
        b = os.read(er, 65536)
        if not b: break
        err += b
    os.close(r); os.close(er)
    st = os.waitpid(pid, 0)[1]
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0: return json.loads(out), None
    if b'validate certificates' in err: return 'passed', None
    return None, (st, err.decode(errors='replace')[-600:])

def check(cond, what):
    if not cond:
        print('FAIL:', what); sys.exit(1)
    print('ok:', what)
