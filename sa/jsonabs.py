"""Strict JSON reading of abstract text (literal characters and tokens)."""


class Bad(Exception):
    pass


class Rd:
    def __init__(self, c, A):
        self.c = c
        self.k = 0
        self.A = A

    def peek(self):
        return self.c[self.k] if self.k < len(self.c) else None

    def ch(self):
        e = self.peek()
        return chr(e & 255) if isinstance(e, int) else None

    def ws(self):
        while self.ch() is not None and self.ch() in ' \t\r\n':
            self.k += 1

    def ctx(self):
        o = ''
        for e in self.c[max(0, self.k - 40):self.k]:
            o += chr(e & 255) if isinstance(e, int) else '<%s>' % (e[1] if e[0] == 'tok' else e[0],)
        return repr(o[-60:])

    def fail(self, what):
        e = self.peek()
        got = 'end' if e is None else repr(chr(e & 255)) if isinstance(e, int) else str(e)
        raise Bad('%s, got %s after %s' % (what, got, self.ctx()))

    def value(self):
        self.ws()
        c = self.ch()
        e = self.peek()
        if c == '{':
            self.k += 1
            out = []
            self.ws()
            if self.ch() == '}':
                self.k += 1
                return ('obj', ())
            while True:
                self.ws()
                if self.ch() != '"':
                    self.fail('expected a member name')
                key = self.string()
                if all(isinstance(x, int) for x in key):
                    key = ''.join(chr(x & 255) for x in key)
                if key in [k for k, _ in out]:
                    raise Bad('duplicate member %s' % key)
                self.ws()
                if self.ch() != ':':
                    self.fail('expected ":"')
                self.k += 1
                out.append((key, self.value()))
                self.ws()
                if self.ch() == ',':
                    self.k += 1
                    continue
                if self.ch() == '}':
                    self.k += 1
                    return ('obj', tuple(out))
                self.fail('expected "," or "}"')
        if c == '[':
            self.k += 1
            out = []
            self.ws()
            if self.ch() == ']':
                self.k += 1
                return ('arr', ())
            while True:
                out.append(self.value())
                self.ws()
                if self.ch() == ',':
                    self.k += 1
                    continue
                if self.ch() == ']':
                    self.k += 1
                    return ('arr', tuple(out))
                self.fail('expected "," or "]"')
        if c == '"':
            return ('str', self.string())
        for w, n in (('true', ('bool', ('c', 1))), ('false', ('bool', ('c', 0))), ('null', ('null',))):
            if all(self.k + j < len(self.c) and self.c[self.k + j] == ord(x) for j, x in enumerate(w)):
                self.k += len(w)
                return n
        if c is not None and (c.isdigit() or c == '-'):
            t = c
            self.k += 1
            while self.ch() is not None and (self.ch().isdigit() or self.ch() in '.eE+-'):
                t += self.ch()
                self.k += 1
            digits = t.lstrip('-')
            if not digits or digits[0] == '0' and len(digits) > 1 and digits[1].isdigit():
                raise Bad('malformed number %s' % t)
            try:
                return ('int', ('c', int(t)))
            except ValueError:
                return ('double', ('top',))
        if isinstance(e, tuple) and e[0] == 'int':
            self.k += 1
            if isinstance(self.peek(), tuple) or (self.ch() or ' ').isdigit():
                self.fail('two numbers run together')
            spec, mod, v = e[2], e[3], e[1]
            if spec not in ('d', 'i', 'u'):
                raise Bad('number written with %%%s%s' % (mod, spec))
            bits = 64 if mod in ('l', 'll', 'j', 'z') else 32
            if v[0] == 't':
                w = self.A.toksize.get(v[1], 64)
                sg = self.A.toksigned.get(v[1], 0)
                if w > bits:
                    v = ('t', v[1], v[2], 'trunc%d' % bits)
                elif spec == 'u' and sg:
                    v = ('t', v[1], v[2], 'unsigned')
                elif spec in 'di' and not sg and w >= bits:
                    v = ('t', v[1], v[2], 'signed')
            return ('int', v)
        if isinstance(e, tuple) and e == ('top',):
            raise Top()
        self.fail('expected a value')

    def string(self):
        self.k += 1
        out = []
        while True:
            e = self.peek()
            if e is None:
                self.fail('unterminated string')
            self.k += 1
            if not isinstance(e, int):
                out.append(e)
                continue
            e &= 255
            if e == 34:
                return tuple(out)
            if e < 32:
                raise Bad('control character %d inside a string after %s' % (e, self.ctx()))
            if e == 92:
                x = self.ch()
                self.k += 1
                m = {'"': 34, '\\': 92, '/': 47, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9}
                if x in m:
                    out.append(m[x])
                elif x == 'u':
                    h = self.c[self.k:self.k + 4]
                    if len(h) == 1 and isinstance(h[0], tuple) or h and isinstance(h[0], tuple) and h[0][0] == 'int':
                        if h[0][2] in ('04x', '04X') and h[0][1][0] == 'c':
                            self.k += 1
                            out.append(uni(h[0][1][1] & 0xffffffff))
                            continue
                        self.fail('bad unicode escape')
                    try:
                        t = ''.join(chr(y) for y in h)
                        if len(t) != 4:
                            raise ValueError
                        out.append(uni(int(t, 16)))
                        self.k += 4
                    except (ValueError, TypeError):
                        self.fail('bad unicode escape')
                else:
                    self.fail('bad escape')
                continue
            out.append(e)


def uni(n):
    return n if n < 128 else ('unicode', n)


class Top(Exception):
    pass


def parse(content, A):
    r = Rd(content, A)
    v = r.value()
    r.ws()
    if r.peek() is not None:
        r.fail('text after the value')
    return v


def show(content, n=400):
    o = ''
    for e in content:
        o += chr(e & 255) if isinstance(e, int) else '<%s>' % (e[1] if len(e) > 1 else e[0],)
    return o[:n]
