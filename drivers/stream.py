"""Streams: replays of the model's histories (write partitions, deliveries with
gaps, read sizes, damage) and systematic sweeps on the real stream classes."""
from use import *

det_random()
T = Trace(args.out)
HD, BS, HL = 5, 16, 20
KEYS = {}


def _setup():
    sizes = (128, 192, 256)
    for i, s in enumerate(sizes):
        p = newdir('s')
        texts = [make_key('AES', s) for _ in range(2)]
        write_set(p, 'n', 'DECRYPT_AND_ENCRYPT', 'AES', [(1, 'ACTIVE', False, texts[0]), (2, 'PRIMARY', False, texts[1])])
        c = keyczar.Crypter.Read(p)
        KEYS[i] = (c, [RefKey('AES', t) for t in texts], sizes[i])


class Src(object):
    """A source of str that answers reads as scripted (0: nothing yet)."""

    def __init__(self, data, ans, gap):
        self.data, self.pos, self.ans, self.i, self.gap, self.eof = data, 0, ans, 0, gap, False

    def read(self, size=-1):
        if self.i < len(self.ans):
            a = self.ans[self.i]
            self.i += 1
            while a == -1 and self.pos < len(self.data) and self.i < len(self.ans):
                a = self.ans[self.i]
                self.i += 1
        else:
            a = 1 << 30
        if a == 0:
            if self.gap == 'raise':
                raise util.BlockingIOError(11, 'no data', 0)
            return None
        if a < 0:
            a = 1 << 30
        k = len(self.data) - self.pos
        k = min(k, a)
        if size is not None and size >= 0:
            k = min(k, size)
        out = self.data[self.pos:self.pos + k]
        self.pos += k
        if not out and size != 0:
            self.eof = True
        return out


class Out(object):
    def __init__(self):
        self.parts, self.flushed = [], 0

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        self.flushed = len(self.parts)

    def value(self):
        return ''.join(self.parts)


def datum(k):
    m = rng.randrange(6)
    if m == 0:
        return bytes(k)
    if m == 4:
        return b' \t\r\n'[rng.randrange(4):][:1] * k
    if m == 5:
        return (bytes(k // 2) + _rb(k))[:k]
    if m == 1:
        return bytes((i * 7 + i // 256) % 256 for i in range(k))
    if m == 2:
        return bytes([k % 16 or 16]) * k
    return _rb(k)


def _rb(k):
    return rng.getrandbits(8 * k).to_bytes(k, 'big') if k else b''


def write_stream(ki, data, writes, raw, ev=True):
    """generator; yields between calls; returns the ciphertext bytes or None"""
    c, refs, _ = KEYS[ki]
    out = Out()
    err = ''
    if rng.random() < .2:
        abandoned()
    r = call(lambda: c.CreateEncryptingStreamWriter(out, encoder=None) if raw else c.CreateEncryptingStreamWriter(out))
    if not r.ok:
        err = r.err
    else:
        wr, at = r.val, 0
        yield
        for k in writes:
            x = call(wr.write, n(data[at:at + k]))
            at += k
            if not x.ok:
                err = x.err
                break
            if len(writes) < 50 and rng.random() < .05:
                abandoned()
            yield
        if not err:
            if at < len(data):
                x = call(wr.write, n(data[at:]))
                err = x.err
            x = call(wr.flush)
            err = err or x.err
            full = out.value()
            complete = out.flushed == len(out.parts)
            yield
            x = call(wr.close)
            err = err or x.err
    ct, ref, one = None, 'invalid', 'none'
    if not err:
        try:
            ct = b(out.value()) if raw else b64d(out.value())
            p = refs[1].unseal(ct)
            ref = 'invalid' if p is None else 'same' if p == data else 'differs'
        except Exception:
            ref = 'invalid'
        x = call(c.Decrypt, out.value(), None) if raw else call(c.Decrypt, out.value())
        one = x.err if not x.ok else 'same' if hx(x.val) == data.hex() else 'differs'
    if ev:
        T.ev('writer', n=len(data), raw=raw, err=err, ref=ref, one=one, complete=(not err) and complete and full == out.value(),
             writes=writes[:60], via='%s/%d' % (keys.ACTIVE_CRYPT_LIB, KEYS[ki][2]))
    return ct if ref == 'same' else None


def expected(ki, recv, honest, data):
    """what the received bytes decrypt to, block by block"""
    if recv == honest:
        return data
    k = [x for x in KEYS[ki][1] if recv[1:5].hex() == x.kid]
    if not k or recv[:1] != b'\0':
        return b''
    body = recv[HD + BS:]
    body = body[:len(body) // BS * BS]
    return R.aes_cbc_decrypt(k[0].aes, recv[HD:HD + BS], body) if body else b''


def first_wrong(recv, honest):
    for i, x in enumerate(recv):
        if i >= len(honest) or x != honest[i]:
            return i + 1
    return 0


def neg(x):
    """any negative number asks for everything"""
    return x if x >= 0 else rng.choice([-1, -1, -2, -3, -16, -100000])


def abandoned():
    """a stream that somebody starts on one of the sets and does not bring to its end"""
    ki = rng.randrange(len(KEYS))
    c, refs, _ = KEYS[ki]
    data = datum(rng.choice([0, 5, 16, 40]))
    if rng.random() < .3:
        r = call(lambda: c.CreateEncryptingStreamWriter(Out(), encoder=None))
        if r.ok:
            call(r.val.write, n(data))
            if rng.random() < .3:
                call(r.val.close)
        return
    t = refs[1].seal(data, _rb(16))
    t = t[:rng.choice([0, 1, 4, 5, 5, 6, 20, 21, 21, 22, 37, 40, len(t) - 1, len(t)])]
    raw = rng.random() < .5
    src = Src(n(t) if raw else b64e(t), [rng.choice([0, 1, 5, 16])] * rng.randrange(4), 'none')
    r = call(lambda: c.CreateDecryptingStreamReader(src, **({'decoder': None} if raw else {})))
    for _ in range(rng.randrange(4)):
        if r.ok:
            call(r.val.read, rng.choice([-1, 1, 16]), _limit=10)
    if r.ok and rng.random() < .3:
        call(r.val.close)


def read_stream(ki, recv, honest, data, ans, wants, raw, gap, buf, text=None, tag=''):
    """generator; one event with all reads"""
    c = KEYS[ki][0]
    src = Src(text if text is not None else n(recv) if raw else b64e(recv), ans, gap)
    kw = {'buffer_size': buf}
    if raw:
        kw['decoder'] = None
    reads = []
    if rng.random() < .2:
        abandoned()
    r = call(lambda: c.CreateDecryptingStreamReader(src, **kw))
    if rng.random() < .1:
        abandoned()
    exp = expected(ki, recv, honest, data)
    d, j, over, idle = 0, 0, 0, 0
    yield
    while r.ok and over < 3 and idle < 3000 and len(reads) < 6000 + len(data) // 8:
        want = wants[j % len(wants)] if wants else -1
        if want == 0 and j >= len(wants) + 4:
            want = 1
        j += 1
        x = call(r.val.read, neg(want), _limit=10)
        e = {'want': want, 'got': 0, 'at': 0, 'd': d, 'kz': x.kz, 'eof': src.eof, 'err': x.err}
        if not x.ok:
            e['kind'] = 'error'
            over += 1
        elif x.val is None:
            e['kind'] = 'none'
            idle += 1
        elif x.val == '':
            e['kind'] = 'end'
            if want != 0:
                over += 1
            else:
                idle += 1
        elif isinstance(x.val, str):
            e['kind'], e['got'] = 'data', len(x.val)
            if x.val == n(exp[d:d + len(x.val)]):
                e['at'] = d
            else:
                e['at'] = n(exp).find(x.val) if len(x.val) > 2 else -1
                if e['at'] == d:
                    e['at'] = -1
            d += len(x.val)
        else:
            e['kind'] = 'other'
            over += 1
        if e['kind'] == 'none' and reads and reads[-1]['kind'] == 'none' and reads[-1]['want'] == want and reads[-1]['eof'] == src.eof:
            pass
        else:
            reads.append(e)
        if x.err == 'HANG':
            break
        yield
    T.ev('stream', n=len(data), len=len(recv), wrong=first_wrong(recv, honest), intact=recv == honest, reads=reads,
         opened=r.ok, raw=raw, gap=gap, buf=buf, tag=tag, via='%s/%d' % (keys.ACTIVE_CRYPT_LIB, KEYS[ki][2]))


def drain(g):
    while True:
        try:
            next(g)
        except StopIteration as s:
            return s.value


def one_history(h, ki, raw, gap, buf, oneshot):
    data = datum(h['n'])
    if oneshot:
        x = call(KEYS[ki][0].Encrypt, n(data), None)
        honest = b(x.val) if x.ok else None
        p = KEYS[ki][1][1].unseal(honest) if honest else None
        if p != data:
            honest = None
    else:
        honest = yield from write_stream(ki, data, h['writes'], raw)
    if honest is None:
        return
    recv = bytes((honest[p - 1] if p else (honest[i] ^ (1 << (i % 8)) if i < len(honest) else rng.randrange(256)))
                 for i, p in enumerate(h['recv']))
    yield from read_stream(ki, recv, honest, data, h['ans'], h['wants'], raw, gap, buf, tag='oneshot' if oneshot else 'hist')


def interleave(gens):
    gens = list(gens)
    while gens:
        g = rng.choice(gens)
        for _ in range(rng.choice([1, 1, 1, 3, 10])):
            try:
                next(g)
            except StopIteration:
                gens.remove(g)
                break


def schedules(hs):
    h = rng.choice(hs)
    return h['ans'], h['wants']


def opts():
    return dict(raw=rng.random() < .5, gap=rng.choice(['none', 'raise']), buf=rng.choice([-1, 1, 15, 16, 17, 4096]))


def honest_ref(ki, data):
    return KEYS[ki][1][rng.randrange(2)].seal(data, _rb(16))


def sweep_intact(hs):
    lens = list(range(0, 50)) + [63, 64, 65, 127, 128, 129, 1023, 1024, 1025, 4075, 4095, 4096, 4097, 4116]
    long = [16384, 65535, 65536, 70001] if not THOROUGH else [16384, 32768, 65535, 65536, 65537, 70001, 131073, 200000]
    pieces = [[], [1] * 40, [16] * 300, [15, 1, 17], [0, 0, 5, 0], [31, 33], [4096] * 60, [5000, 1, 4095]]
    mixed = [[3, 32768], [32768, 5], [5, 65536, 11], [1, 16, 32784], [15, 1, 40000], [100, 32768, 1, 32768], [17, 0, 49152, 31]]
    lst = [(k, p) for k in lens for p in rng.sample(pieces, 8 if THOROUGH else 3)] + [(k, p) for k in long for p in (pieces[0], pieces[6])]
    lst += [(sum(p) + k, p) for p in mixed for k in (0, rng.choice([1, 15, 16, 33]))]
    # nothing written at every fill of the buffer; very many writes
    lst += [(f + r, [f] + [0] * z) for f in range(0, 34) for z, r in ((1, 3), (3, rng.choice([0, 1, 16, 40])))]
    lst += [(k, [1] * k) for k in (1100, 2500)] + [(3000, [0, 1, 0, 2] * 1000)]
    for k, p in lst:
        ki = rng.randrange(3)
        data = datum(k)
        if k < 80 and 0 in p and rng.random() < .5:
            data = bytes(k) if rng.random() < .6 else b'\n' * k
        o = opts()
        writes, at = [], 0
        for w in p:
            if at + w <= k:
                writes.append(w)
                at += w
        g = [write_stream(ki, data, writes, o['raw'])]
        ct = drain(g[0])
        if ct is None:
            ct = honest_ref(ki, data)
        ans, wants = schedules(hs)
        if k > 300:
            o['buf'] = o['buf'] if k < 60000 else rng.choice([4096, 65536, 1000])
            wants = [rng.choice([-1, 1000, 4096, 15 if k < 60000 else 1001, k, k + 1, 65536])]
            ans = [rng.choice([1, 5, 16, 100, 4096, 0]) for _ in range(40)]
        text = None
        if not o['raw'] and rng.random() < .3:
            t = b64e(ct)
            text = '\n'.join(t[i:i + 76] for i in range(0, len(t), 76)) + rng.choice(['', '\n', '\r\n '])
        drain(read_stream(ki, ct, ct, data, ans, wants, text=text, tag='sweep', **o))


def sweep_damage(hs):
    for k in ((0, 5, 16, 40) if not THOROUGH else (0, 1, 5, 15, 16, 17, 40, 64)):
        for ki in range(3) if THOROUGH else (rng.randrange(3),):
            data = datum(k)
            c = honest_ref(ki, data)
            other = honest_ref(ki, datum(k))
            v = [c[:i] for i in range(len(c))]
            v += [c[:i] + bytes([c[i] ^ rng.choice([1, 2, 0x80, 0xff, rng.randrange(1, 256)])]) + c[i + 1:] for i in range(len(c))]
            v += [c + _rb(i) for i in list(range(1, 40)) + [52, 56, 57, 73]]
            v += [c + c, c + c[5:], c[:21] + c, c[:-20] + other[-20:], other[:-20] + c[-20:], c[:5] + other[5:21] + c[21:], c[:-20] + bytes(20),
                  c[:-20], c[:-36] + c[-20:], c[:21] + c[-20:], c[:21] + other[21:-20] + c[-20:], bytes(5) + c, b'\0' + _rb(4) + c, c[:5] + c,
                  c[1:], b'\0' + c, b'\1' + c[1:], c[:-20] + c[-1:-21:-1]]
            for x in KEYS[ki][1]:
                v.append(b'\0' + bytes.fromhex(x.kid) + c[5:])
                v.append(b'\0' + bytes.fromhex(x.kid) + c)
            bl = [c[i:i + 16] for i in range(5, len(c) - 20, 16)]
            for i in range(len(bl)):
                for j in range(len(bl)):
                    q = list(bl)
                    if i < j:
                        q[i], q[j] = q[j], q[i]
                    elif i == j:
                        del q[i]
                    else:
                        q.insert(j, q[i])
                    v.append(c[:5] + b''.join(q) + c[-20:])
            v = [x for x in v if x != c]
            for recv in v:
                for _ in range(4 if THOROUGH else 1):
                    ans, wants = schedules(hs)
                    drain(read_stream(ki, recv, c, data, ans, wants, tag='damage', **opts()))
            # damage of the text
            t = b64e(c)
            for i in range(len(t)):
                ans, wants = schedules(hs)
                cut = t[:i]
                recv = b64d(cut if len(cut) % 4 != 1 else cut[:-1])
                drain(read_stream(ki, recv, c, data, ans, wants, False, 'none', 4096, text=cut, tag='text'))
                q = rng.choice([x for x in 'ABwx01-_' if x != t[i]])
                alt = t[:i] + q + t[i + 1:]
                recv = b64d(alt)
                if recv != c:
                    drain(read_stream(ki, recv, c, data, ans, wants, False, 'none', 4096, text=alt, tag='text'))


def long_damage():
    for k in (4096, 20000, 65536, 140000, 270000, 1100000) if not THOROUGH else (4096, 20000, 65536, 140000, 270000, 600000, 1100000, 2200000):
        ki = rng.randrange(3)
        data = _rb(k)
        c = honest_ref(ki, data)
        for _ in range((12 if THOROUGH else 4) if k < 100000 else 1):
            i = rng.choice([rng.randrange(len(c)), len(c) - rng.randrange(1, 60), 21 + rng.randrange(40)])
            v = [c[:i], c[:i] + bytes([c[i] ^ 1]) + c[i + 1:], c[:i] + c[i + 16:], c + c[-36:]]
            if k > 100000 and not THOROUGH:  # always one of the flips, and now and then another kind
                v = v[1:2] if k > 500000 else [v[1], rng.choice(v)]
            for recv in v:
                if recv != c:
                    drain(read_stream(ki, recv, c, data, [4096] * 5, [rng.choice([-1, 4096, 1000])], tag='long', **opts()))


def main():
    _setup()
    hs = [x['hist'] for x in read_input()]
    libs = ['m2crypto', 'pycrypto']
    for lib in libs:
        keys.ACTIVE_CRYPT_LIB = lib
        T.ev('reset', kind='AES', via=lib)
        mine = hs[libs.index(lib)::2]
        i = 0
        while i < len(mine):
            grp = mine[i:i + rng.choice([1, 2, 3, 5])]
            i += len(grp)
            same = rng.random() < .7
            ki0 = rng.randrange(3)
            gens = []
            for h in grp:
                o = opts()
                gens.append(one_history(h, ki0 if same else rng.randrange(3), o['raw'], o['gap'], o['buf'], rng.random() < .3))
            interleave(gens)
        T.ev('reset', kind='AES', via=lib)
        if PROP == 'C10':
            sweep_intact(mine)
        else:
            sweep_damage(mine)
            long_damage()
    T.close()
    summary(events=T.n)


main()
