"""Base64: replays of the model's histories and sweeps on the real codecs."""
from use import *

T = Trace(args.out)
ITEMS = []
WHITE = ' \n\t\r\f'


def flush():
    if ITEMS:
        T.ev('items', list=list(ITEMS))
        del ITEMS[:]


def item(**k):
    ITEMS.append(k)
    if len(ITEMS) >= 40:
        flush()


def _rb(k):
    return rng.getrandbits(8 * k).to_bytes(k, 'big') if k else b''


def datum(k):
    m = rng.randrange(5)
    return [bytes(k), b'\xff' * k, bytes([0xfb, 0xff, 0xbe] * k)[:k], _rb(k), bytes(range(256)) [:k] if k < 256 else _rb(k)][m]


def enc_item(via, data, fn):
    r = call(fn)
    out = r.val if r.ok and isinstance(r.val, str) else ''
    if r.ok and not all(ord(c) < 127 and c not in '"\\' for c in out):
        out = '?' + hx(out)
    item(k='enc', via=via, data=data.hex(), ok=r.ok and isinstance(r.val, str), out=out)


def dec_item(via, text, fn):
    r = call(fn)
    item(k='dec', via=via, text=text, ok=r.ok, out=hx(r.val) if r.ok else '', err=r.err)


def first(x):
    return x[0] if isinstance(x, tuple) else x


class Src(object):
    def __init__(self, data, ans, gap):
        self.data, self.pos, self.ans, self.i, self.gap, self.eof = data, 0, list(ans), 0, gap, False

    def read(self, size=-1):
        a = 1 << 30
        while self.i < len(self.ans):
            a = self.ans[self.i]
            self.i += 1
            if a >= 0 or self.pos >= len(self.data):
                break
            a = 1 << 30
        if a == 0:
            if self.gap == 'raise':
                raise util.BlockingIOError(11, 'x', 0)
            return None
        k = min(len(self.data) - self.pos, a if a > 0 else 1 << 30)
        if size is not None and size >= 0:
            k = min(k, size)
        out = self.data[self.pos:self.pos + k]
        self.pos += k
        if not out and size != 0:
            self.eof = True
        return out

    def close(self):
        pass


class Out(object):
    def __init__(self):
        self.parts, self.flushed, self.closed = [], 0, False

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        self.flushed = len(self.parts)

    def close(self):
        self.closed = True


def encs(data, splits):
    def pieces():
        at, res = 0, []
        for k in splits:
            res.append(n(data[at:at + k]))
            at += k
        if at < len(data):
            res.append(n(data[at:]))
        return res
    enc_item('one-shot', data, lambda: util.Base64WSEncode(n(data)))
    enc_item('deprecated', data, lambda: util.Encode(n(data)))

    def inc(final):
        e = util.BufferedIncrementalBase64WSEncoder()
        p = pieces()
        out = ''
        for i, x in enumerate(p):
            out += first(e.encode(x, final and i == len(p) - 1))
        return out + e.flush()
    enc_item('incremental', data, lambda: inc(False))
    enc_item('incremental final', data, lambda: inc(True))

    def wr(close):
        o = Out()
        s = util.IncrementalBase64WSStreamWriter(o)
        for x in pieces():
            s.write(x)
        if close:
            s.close()
        else:
            s.flush()
        if not close and o.flushed != len(o.parts):
            return '?unflushed'
        return ''.join(o.parts)
    enc_item('stream writer', data, lambda: wr(False))
    enc_item('stream writer close', data, lambda: wr(True))


def decs(text, splits):
    def pieces():
        at, res = 0, []
        for k in splits:
            res.append(text[at:at + k])
            at += k
        if at < len(text):
            res.append(text[at:])
        return res
    dec_item('one-shot', text, lambda: util.Base64WSDecode(text))
    dec_item('deprecated', text, lambda: util.Decode(text))

    def inc(final):
        d = util.BufferedIncrementalBase64WSDecoder()
        p = pieces()
        out = ''
        for i, x in enumerate(p):
            out += first(d.decode(x, final and i == len(p) - 1))
        return out + d.flush()
    dec_item('incremental', text, lambda: inc(False))
    dec_item('incremental final', text, lambda: inc(True))


def neg(x):
    """any negative number asks for everything"""
    return x if x >= 0 else rng.choice([-1, -1, -2, -3, -16, -100000])


def reader(text, ans, reqs, gap):
    """generator"""
    src = Src(text, ans, gap)
    r = call(util.IncrementalBase64WSStreamReader, src)
    sofar, reads, over, j = '', [], 0, 0
    while r.ok and over < 2 and len(reads) < 600 and j < 3000:
        size, chars = reqs[j % len(reqs)] if reqs else (-1, -1)
        if j >= len(reqs) + 30 and (size == 0 or chars == 0):
            size, chars = (3, 1)
        j += 1
        m = rng.randrange(3)
        if chars == -1 and m:
            x = call(r.val.read, neg(size), _limit=10) if m == 1 or size != -1 else call(r.val.read, _limit=10)
        else:
            x = call(r.val.read, neg(size), neg(chars), _limit=10)
        e = {'size': size, 'chars': chars, 'got': 0, 'err': x.err, 'eof': src.eof}
        if not x.ok:
            e['kind'] = 'error'
            over += 1
        elif x.val is None:
            e['kind'] = 'none'
        elif x.val == '':
            e['kind'] = 'end'
            if size != 0 and chars != 0:
                over += 1
        elif isinstance(x.val, str):
            e['kind'] = 'data'
            e['got'] = len(x.val)
            sofar += hx(x.val)
        else:
            e['kind'] = 'other'
            over += 1
        e['sofar'] = sofar
        if e['kind'] in ('none', 'end') and reads and reads[-1] == e and not over:
            pass
        else:
            reads.append(e)
        if x.err == 'HANG':
            break
        yield
    item(k='read', text=text, reads=reads, via=gap)


def drain(g):
    for _ in g:
        pass


def interleave(gens):
    gens = list(gens)
    while gens:
        g = rng.choice(gens)
        try:
            next(g)
        except StopIteration:
            gens.remove(g)


def lines(count):
    """reading by lines, alone and mixed with other reads"""
    for _ in range(count):
        s = ''.join(rng.choice(['a', '\n', '\r', '\r\n', 'bc', '\x85', '\x0c', '\x1c', ' ', '\0', '\xff']) for _ in range(rng.choice([0, 1, 3, 10, 60, 300])))
        t = b64e(b(s))
        if rng.random() < .3:
            t = '\n'.join(t[i:i + 7] for i in range(0, len(t), 7))
        how = rng.choice(['mixed', 'readline', 'readlines', 'iteration'])

        def rd():
            r = util.IncrementalBase64WSStreamReader(io.StringIO(t))
            if how == 'readlines':
                # the class keeps what is left over for a final call
                return ''.join(''.join(r.readlines()) for _ in range(3))
            if how == 'iteration':
                return ''.join(r)
            out, idle = [], 0
            while idle < 3:
                k = rng.randrange(4) if how == 'mixed' else 0
                x = (r.readline() if k == 0 else r.readline(rng.randrange(1, 40)) if k == 1 else r.read(neg(-1), rng.randrange(1, 9)) if k == 2
                     else r.read(rng.randrange(1, 20)))
                idle = 0 if x else idle + 1
                out.append(x)
            return ''.join(out)
        x = call(rd, _limit=20)
        item(k='big', via='stream reader by lines, ' + how, want=tok(b(s)), got=tok(x.val) if x.ok else x.err)


def big(k):
    """long streams: what comes out is compared by length and digest with the reference codec"""
    def dig(x):
        return '%d:%s' % (len(x), hashlib.sha1(b(x)).hexdigest()) if isinstance(x, str) else type(x).__name__

    def put(via, want, fn):
        r = call(fn, _limit=60)
        item(k='big', via=via, want=dig(want), got=dig(r.val) if r.ok else r.err)
    data = rng.choice([_rb(k), bytes(k), (_rb(97) * (k // 97 + 1))[:k]])
    text = b64e(data)
    D = n(data)
    put('encode', text, lambda: util.Base64WSEncode(D))
    put('decode', D, lambda: util.Base64WSDecode(text))
    white = ''
    for at in range(0, len(text), 1000):
        white += text[at:at + 1000] + rng.choice(['', ' ', '\n', '\r\n', '\t' * 30])
    put('decode with white space', D, lambda: util.Base64WSDecode(white))
    for step in (1021, 4096, 65537, k):
        def enc():
            e = util.BufferedIncrementalBase64WSEncoder()
            return ''.join(first(e.encode(D[i:i + step])) for i in range(0, k, step)) + e.flush()

        def wr():
            o = Out()
            w = util.IncrementalBase64WSStreamWriter(o)
            for i in range(0, k, step):
                w.write(D[i:i + step])
            w.flush()
            return ''.join(o.parts)

        def dec(t):
            d = util.BufferedIncrementalBase64WSDecoder()
            return ''.join(first(d.decode(t[i:i + step])) for i in range(0, len(t), step)) + d.flush()
        put('incremental encoder, pieces of %d' % step, text, enc)
        put('stream writer, pieces of %d' % step, text, wr)
        put('incremental decoder, pieces of %d' % step, D, lambda: dec(text))
        put('incremental decoder with white space, pieces of %d' % step, D, lambda: dec(white))
    for size, chars, t in ((-1, -1, text), (8192, -1, text), (65536, -1, white), (k, -1, white), (4096, 1000, text), (k, 777, white), (8192, 50000, text),
                           (1000, 70000, white), (65536, 65536, text), (100, k, white), (-1, 60000, text), (72, k, text), (-1, k, white), (65536, 3 * k, text)):
        def rd():
            r = util.IncrementalBase64WSStreamReader(Src(t, [rng.choice([-1, 3, 1000, 100000]) for _ in range(20)], 'none'))
            out = []
            for _ in range(100000):
                x = r.read(neg(size), neg(chars))
                if x == '':
                    break
                if x is not None:
                    out.append(x)
            return ''.join(out)
        put('stream reader of %d, %d' % (size, chars), D, rd)


def main():
    hs = [x['hist'] for x in read_input()]
    T.ev('reset', kind='', via='')
    grp = []
    for h in hs:
        data = datum(h['n'])
        t = b64e(data)
        text = ''.join(rng.choice(WHITE) if c == 0 else t[c - 1] if c <= len(t) else rng.choice('Aw9-_') for c in h['text'])
        if h['enc']:
            encs(data, h['enc'])
        if h['dec'] or not h['req']:
            decs(text, h['dec'])
        if h['req']:
            grp.append(reader(text, h['ans'], h['req'], rng.choice(['none', 'raise'])))
            if len(grp) >= rng.choice([1, 2, 3, 4]):
                interleave(grp)
                grp = []
    interleave(grp)
    flush()
    T.ev('reset', kind='', via='sweep')
    # every split in two of short inputs, every length, every byte value
    for k in range(0, 13):
        data = datum(k)
        for i in range(k + 1):
            encs(data, [i])
        t = b64e(data)
        for i in range(len(t) + 1):
            decs(t, [i])
            decs(t, [i, 1, 1])
    for v in range(256):
        data = bytes([v, 255 - v, v ^ 0x55])[:1 + v % 3]
        encs(data, [1])
        decs(b64e(data), [2])
    al = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_'
    for k in list(range(0, 40)) + [75, 76, 77, 100, 255, 256, 1023, 1024, 4096] + ([8191, 20000] if THOROUGH else []):
        for _ in range((12 if THOROUGH else 3) if k < 300 else 1):
            text = ''.join(rng.choice(al) for _ in range(k))
            if rng.random() < .5:
                for _ in range(rng.randrange(1, 5)):
                    i = rng.randrange(len(text) + 1)
                    text = text[:i] + ''.join(rng.choice(WHITE) for _ in range(rng.randrange(1, 6))) + text[i:]
            sp = [rng.choice([1, 2, 3, 4, 5, 7, 64, 0]) for _ in range(30)]
            decs(text, sp)
            rq = [(rng.choice([-1, 1, 3, 4, 5, 72, 4096]), rng.choice([-1, -1, 1, 2, 50])) for _ in range(3)]
            if k > 300:
                rq = [(rng.choice([72, 4096, 100]), -1)]
            drain(reader(text, [rng.choice([0, 1, 2, 3, 5, 50]) for _ in range(rng.randrange(20))], rq, rng.choice(['none', 'raise'])))
            data = datum(k)
            encs(data, [rng.choice([1, 2, 3, 4, 5, 0, 57, 1024]) for _ in range(30)])
    for k in [50000, 65536, 200001] + ([131071, 1000003, 262144] if THOROUGH else []):
        big(k)
    lines(2000 if THOROUGH else 400)
    flush()
    T.close()
    summary(events=T.n)


main()
