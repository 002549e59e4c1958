#!/usr/bin/env python3
"""Writes the inputs that showed the repaired defects (findings/<defect>-<properties>.class)."""
import struct
u1 = lambda x: struct.pack('>B', x)
u2 = lambda x: struct.pack('>H', x)
u4 = lambda x: struct.pack('>I', x & 0xffffffff)

class C:
    def __init__(self, major=61):
        self.major, self.pool, self.n, self.body, self.memo = major, b'', 1, b'', {}
    def entry(self, b, slots=1):
        self.pool += b
        self.n += slots
        return self.n - slots
    def utf8(self, t):
        t = t if isinstance(t, bytes) else t.encode()
        if t not in self.memo:
            self.memo[t] = self.entry(u1(1) + u2(len(t)) + t)
        return self.memo[t]
    def e1(self, tag, a): return self.entry(u1(tag) + u2(a))
    def e2(self, tag, a, b): return self.entry(u1(tag) + u2(a) + u2(b))
    def cls(self, name): return self.e1(7, self.utf8(name))
    def nt(self, name, desc): return self.e2(12, self.utf8(name), self.utf8(desc))
    def head(self, flags=0x21):
        t, s = self.cls('T'), self.cls('S')
        return u2(flags) + u2(t) + u2(s) + u2(0)
    def attr(self, name, body): return u2(self.utf8(name)) + u4(len(body)) + body
    def empty(self, attrs=()): return self.head() + u2(0) + u2(0) + u2(len(attrs)) + b''.join(attrs)
    def method(self, code):
        a = self.attr('Code', u2(3) + u2(4) + u4(len(code)) + code + u2(0) + u2(0))
        return self.head() + u2(0) + u2(1) + u2(1) + u2(self.utf8('m')) + u2(self.utf8('()V')) + u2(1) + a + u2(0)
    def save(self, name, body, n=None):
        b = u4(0xcafebabe) + u2(0) + u2(self.major) + u2(n or self.n) + self.pool + body
        open(f'/verif/findings/{name}.class', 'wb').write(b)

# F1: switch ranges
c = C(); c.save('f1a-C01-C02-C06', c.method(b'\xaa\0\0\0' + u4(0) + u4(-0x80000000) + u4(0x7fffffff)))
c = C(); c.save('f1b-C01-C02-C06', c.method(b'\xaa\0\0\0' + u4(0) + u4(0) + u4(0x7ffffffe)))
c = C(); c.save('f1c-C01-C02-C06', c.method(b'\xab\0\0\0' + u4(0) + u4(0x7fffffff)))
# F2: a destination beyond 32 bits
c = C(); c.save('f2-C01-C07', c.method(b'\0\xc8' + u4(0x7fffffff)))
# F3: a long in the last index
c = C(); body = c.empty(); c.entry(u1(5) + u4(0) + u4(1)); c.save('f3a-C10', body)
c = C(); body = c.empty()
while c.n < 65534: c.entry(u1(3) + u4(0))
c.entry(u1(5) + u4(0) + u4(1)); c.save('f3b-C01-C10', body)
# F4: a descriptor that is not text
c = C(); body = c.empty(); n = c.utf8('n'); c.e2(12, n, c.utf8(b'\xff')); c.save('f4-C01-C10-C15', body)
# F5: cycles and chains of entries
c = C(); body = c.empty(); k = c.n; c.e1(8, k + 1); c.e1(8, k); c.save('f5a-C02', body)
c = C(); body = c.empty(); k = c.n
for j in range(65000): c.e1(8, k + j - 1)
c.save('f5b-C01', body)
# F6: nesting
c = C(); t, e = c.utf8('La;'), c.utf8('e')
v = b'B' + u2(c.entry(u1(3) + u4(1)))
depth = 4000
val = (b'@' + u2(t) + u2(1) + u2(e)) * depth + v
c.save('f6a-C01', c.empty([c.attr('RuntimeVisibleAnnotations', u2(1) + u2(t) + u2(1) + u2(e) + val)]))
c = C(); inner = b''
rc = c.utf8('r'), c.utf8('I')
body = u2(0)
for _ in range(1500):
    body = u2(1) + u2(rc[0]) + u2(rc[1]) + u2(1) + c.attr('Record', body)
c.save('f6b-C01', c.empty([c.attr('Record', body)]))
c = C(); name = c.utf8('Record')
nest = b''
for k in range(12): nest = u2(65535) + u2(c.utf8('r')) + u2(c.utf8('I')) + u2(65535) + u2(name) + u4(len(nest)) + nest
c.save('f6c-C02', c.empty([u2(name) + u4(len(nest)) + nest]))
# F7: trailing text
for k, (d, m) in enumerate([('II', None), ('La;x', None), (None, '()II'), (None, '()La;b')]):
    c = C(); h = c.head()
    f = lambda d: u2(1) + u2(1) + u2(c.utf8('m')) + u2(c.utf8(d)) + u2(0)
    c.save(f'f7{"abcd"[k]}-C14', h + (f(d) if d else u2(0)) + (f(m) if m else u2(0)) + u2(0))
# F8: class names
for k, d in enumerate(['La<b;', '[La/>;']):
    c = C(); h = c.head(); c.save(f'f8{"ab"[k]}-C14', h + u2(1) + u2(1) + u2(c.utf8('f')) + u2(c.utf8(d)) + u2(0) + u2(0) + u2(0))
c = C(); t, s = c.cls('a<b'), c.cls('c/<d>')
c.save('f8c-C14-C10', u2(0x21) + u2(t) + u2(s) + u2(0) * 4)
# F9: a dynamic constant as a bootstrap argument
c = C(); h = c.head()
mh = c.entry(u1(15) + u1(6) + u2(c.e2(10, c.cls('A'), c.nt('b', '()V'))))
d = c.e2(17, 0, c.nt('d', 'I'))
c.save('f9-C11', h + u2(0) + u2(0) + u2(1) + c.attr('BootstrapMethods', u2(1) + u2(mh) + u2(1) + u2(d)))
# F10: names of methods
for k, (tag, name, desc) in enumerate([(10, '<x>', '()V'), (11, 'a<b', '()V'), (10, '<init>', '()I'), (11, 'a>', '()V')]):
    c = C(); body = c.empty(); c.e2(tag, c.cls('A'), c.nt(name, desc)); c.save(f'f10{"abcd"[k]}-C10', body)
c = C(); body = c.empty(); c.entry(u1(15) + u1(8) + u2(c.e2(10, c.cls('A'), c.nt('n', '()V')))); c.save('f10e-C10', body)
c = C(); body = c.empty(); c.entry(u1(15) + u1(5) + u2(c.e2(10, c.cls('A'), c.nt('<init>', '()V')))); c.save('f10f-C10', body)
c = C(); body = c.empty(); c.e1(19, c.utf8('m')); c.save('f10g-C10', body)
c = C(); body = c.empty(); c.e1(20, c.utf8('p')); c.save('f10h-C10', body)
# F11: where errors say they are
c = C(); h = c.head(); f = lambda d: u2(1) + u2(c.utf8('f' + d)) + u2(c.utf8(d)) + u2(0)
c.save('f11a-C21', h + u2(3) + f('I') + f('J') + f('?') + u2(0) + u2(0))
c = C(); c.save('f11b-C21', c.method(b'\0\0\0\0\0\0\0\x11\0'))
c = C(); body = c.empty(); c.entry(u1(2)); c.save('f11c-C21', body)
c = C(); h = c.head(); x = c.attr('X', b'ab'); y = u2(c.utf8('X')) + u4(1000) + b'c'
c.save('f11d-C21', h + u2(0) + u2(0) + u2(3) + x + x + y)
c = C(); body = c.empty(); c.e2(18, 7, c.nt('d', '()V')); c.save('f11e-C21', body)
