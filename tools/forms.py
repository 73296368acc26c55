#!/usr/bin/env python3
"""The instruction table: for every mnemonic and operand form the macro accepts, the
machine encodings (from the Intel SDM) that perform exactly that operation.

Generates, into a work directory:
  wrappers.rs  one Rust function per form whose body is one monoasm! call
  forms.ct     the contract of each wrapper (for the verifier)
  table.rs     the same table as data for the native search
"""
import sys, os, json, copy

# ------------------------------------------------------------------ table
class Alt:
    """pfx bytes | REX kind (W: operand size 64, N: default, B: byte operand) | opcode |
    ModRM.reg (('d',digit) or operand name) | r/m operand | immediate size | conditions."""
    def __init__(s, k, op, reg=None, rm=None, imm=None, pfx=(), cond=(), kind='M'):
        s.k, s.op, s.reg, s.rm, s.imm, s.pfx, s.cond, s.kind = k, list(op), reg, rm, imm, list(pfx), list(cond), kind

def O(k, op, r, imm=None, pfx=(), cond=()): return Alt(k, [op], rm=r, imm=imm, pfx=pfx, cond=cond, kind='O')
def RAW(op, imm=None, cond=()): return Alt('N', op, imm=imm, cond=cond, kind='R')
def REL(op): return Alt('N', op, kind='D')

class Form:
    def __init__(s, mnem, ops, alts, props, fits=None, text=None, name=None, pre=(), name2=None):
        s.mnem, s.ops, s.alts, s.props, s.fits, s.text, s.name, s.pre, s.name2 = mnem, ops, alts, props, fits, text, name, list(pre), name2

FORMS = []
def form(mnem, ops, alts, props, **kw):
    FORMS.append(Form(mnem, ops.split(',') if ops else [], copy.deepcopy(alts), props.split(), **kw))

MEM = ('mb', 'mx', 'ml')

def rm_forms(mnem, ops, mk, props, **kw):
    """ops uses 'm' for the memory operand; one form per addressing shape."""
    for sh in MEM:
        form(mnem, ops.replace('m', sh), mk, props, **kw)

SZ = {'q': ('W', [], 32), 'l': ('N', [], 32), 'w': ('N', [0x66], 16), 'b': ('B', [], 8)}
IM = {8: 'b', 16: 'w', 32: 'l', 64: 'q'}

def build():
    # --- C02 integer moves
    for s, (k, p, n) in SZ.items():
        mr, rmo = ([0x88], [0x8a]) if s == 'b' else ([0x89], [0x8b])
        m = 'mov' + s
        form(m, 'ra,rb', [Alt(k, mr, 'b', 'a', pfx=p), Alt(k, rmo, 'a', 'b', pfx=p)], 'C02')
        rm_forms(m, 'ra,m', [Alt(k, rmo, 'a', 'm', pfx=p)], 'C02')
        rm_forms(m, 'm,ra', [Alt(k, mr, 'a', 'm', pfx=p)], 'C02')
        im = IM[n]
        c7 = [0xc6] if s == 'b' else [0xc7]
        b8 = 0xb0 if s == 'b' else 0xb8
        if s == 'q':
            form(m, 'ra,i', [O('W', 0xb8, 'a', 'q'), Alt('W', c7, ('d', 0), 'a', 'l', cond=[('fits', 32)]),
                             O('N', 0xb8, 'a', 'l', cond=[('ufits', 32)])], 'C02 C05')
            form(m, 'ra,i', [O('W', 0xb8, 'a', 'q')], 'C02 C05', text='movq R(a), qword (i);', name='movq_qword')
        else:
            form(m, 'ra,i', [O(k, b8, 'a', im, pfx=p), Alt(k, c7, ('d', 0), 'a', im, pfx=p)], 'C02 C05', fits=n)
        rm_forms(m, 'm,i', [Alt(k, c7, ('d', 0), 'm', im, pfx=p)], 'C02 C05', fits=n)
    for m, op, z in (('movsxl', [0x63], 0), ('movzxw', [0x0f, 0xb7], 1), ('movsxw', [0x0f, 0xbf], 0), ('movzxb', [0x0f, 0xb6], 1), ('movsxb', [0x0f, 0xbe], 0)):
        al = lambda rm: [Alt('W', op, 'a', rm)] + ([Alt('B' if m.endswith('b') else 'N', op, 'a', rm)] if z else [])
        form(m, 'ra,rb', al('b'), 'C02')
        rm_forms(m, 'ra,m', al('m'), 'C02')
    rm_forms('lea', 'ra,m', [Alt('W', [0x8d], 'a', 'm')], 'C02')
    # --- arithmetic and logic
    for d, m in enumerate(('add', 'or', 'adc', 'sbb', 'and', 'sub', 'xor', 'cmp')):
        for s, (k, p, n) in SZ.items():
            mr = d * 8 + (0 if s == 'b' else 1)
            form(m + s, 'ra,rb', [Alt(k, [mr], 'b', 'a', pfx=p), Alt(k, [mr + 2], 'a', 'b', pfx=p)], 'C02')
            rm_forms(m + s, 'ra,m', [Alt(k, [mr + 2], 'a', 'm', pfx=p)], 'C02')
            rm_forms(m + s, 'm,ra', [Alt(k, [mr], 'a', 'm', pfx=p)], 'C02')
            def imms(rm):
                if s == 'b': return [Alt(k, [0x80], ('d', d), rm, 'b')] + ([Alt('N', [0x80], ('d', d), rm, 'b')] if rm == 'm' else [])
                return [Alt(k, [0x83], ('d', d), rm, 'b', pfx=p, cond=[('fits', 8)]), Alt(k, [0x81], ('d', d), rm, IM[n], pfx=p)]
            acc = [RAW((p + ([0x48] if s == 'q' else [])) + [d * 8 + (4 if s == 'b' else 5)], IM[n], cond=[('zero', 'a')])]
            form(m + s, 'ra,i', imms('a') + acc, 'C02 C05', fits=n)
            rm_forms(m + s, 'm,i', imms('m'), 'C02 C05', fits=n)
    # --- xchg, test
    X = [0x87]
    form('xchgq', 'ra,rb', [Alt('W', X, 'b', 'a'), Alt('W', X, 'a', 'b'), O('W', 0x90, 'b', cond=[('zero', 'a')]), O('W', 0x90, 'a', cond=[('zero', 'b')]),
                            RAW([0x90], cond=[('zero', 'a'), ('zero', 'b')])], 'C02')
    rm_forms('xchgq', 'ra,m', [Alt('W', X, 'a', 'm')], 'C02')
    rm_forms('xchgq', 'm,ra', [Alt('W', X, 'a', 'm')], 'C02')
    for s, op, im, n in (('q', 0x85, 'l', 32), ('b', 0x84, 'b', 8)):
        k = SZ[s][0]
        f7 = [0xf7] if s == 'q' else [0xf6]
        form('test' + s, 'ra,rb', [Alt(k, [op], 'b', 'a'), Alt(k, [op], 'a', 'b')], 'C02')
        rm_forms('test' + s, 'm,ra', [Alt(k, [op], 'a', 'm')], 'C02')
        form('test' + s, 'ra,i', [Alt(k, f7, ('d', 0), 'a', im), RAW([0x48, 0xa9] if s == 'q' else [0xa8], im, cond=[('zero', 'a')])], 'C02 C05', fits=n)
        rm_forms('test' + s, 'm,i', [Alt(k, f7, ('d', 0), 'm', im)] + ([Alt('N', f7, ('d', 0), 'm', im)] if s == 'b' else []), 'C02 C05', fits=n)
    # --- unary, multiply, divide
    def unary(m, k, op, d, props='C02', pfx=()):
        form(m, 'ra', [Alt(k, op, ('d', d), 'a', pfx=pfx)], props)
        rm_forms(m, 'm', [Alt(k, op, ('d', d), 'm', pfx=pfx)], props)
    unary('negq', 'W', [0xf7], 3)
    for m, d in (('idiv', 7), ('div', 6)):
        for s, k in (('', 'W'), ('q', 'W'), ('l', 'N')): unary(m + s, k, [0xf7], d)
    form('imul', 'ra,rb', [Alt('W', [0x0f, 0xaf], 'a', 'b')], 'C02')
    rm_forms('imul', 'ra,m', [Alt('W', [0x0f, 0xaf], 'a', 'm')], 'C02')
    # --- shifts
    for m, d in (('rol', 0), ('ror', 1), ('shl', 4), ('shr', 5), ('sal', 4), ('sar', 7)):
        for s in 'ql':
            k = SZ[s][0]
            al = lambda rm: [Alt(k, [0xd1], ('d', d), rm, cond=[('imm', 1)]), Alt(k, [0xc1], ('d', d), rm, 'b')]
            form(m + s, 'ra,i', al('a'), 'C02 C05', fits='shift')
            rm_forms(m + s, 'm,i', al('m'), 'C02 C05', fits='shift')
            form(m + s, 'ra,rc', [Alt(k, [0xd3], ('d', d), 'a')], 'C02', pre=[('one', 'c')])
            rm_forms(m + s, 'm,rc', [Alt(k, [0xd3], ('d', d), 'm')], 'C02', pre=[('one', 'c')])
    for m, op in (('lzcnt', 0xbd), ('tzcnt', 0xbc), ('popcnt', 0xb8)):
        for s in 'ql':
            form(m + s, 'ra,rb', [Alt(SZ[s][0], [0x0f, op], 'a', 'b', pfx=[0xf3])], 'C02')
            rm_forms(m + s, 'ra,m', [Alt(SZ[s][0], [0x0f, op], 'a', 'm', pfx=[0xf3])], 'C02')
    form('cqo', '', [RAW([0x48, 0x99])], 'C02')
    form('cdq', '', [RAW([0x99])], 'C02')
    # --- C03
    F2, P66, F3 = [0xf2], [0x66], [0xf3]
    form('movsd', 'xa,xb', [Alt('N', [0x0f, 0x10], 'a', 'b', pfx=F2), Alt('N', [0x0f, 0x11], 'b', 'a', pfx=F2)], 'C03')
    rm_forms('movsd', 'xa,m', [Alt('N', [0x0f, 0x10], 'a', 'm', pfx=F2)], 'C03')
    rm_forms('movsd', 'm,xa', [Alt('N', [0x0f, 0x11], 'a', 'm', pfx=F2)], 'C03')
    form('movq', 'xa,rb', [Alt('W', [0x0f, 0x6e], 'a', 'b', pfx=P66)], 'C03')
    form('movq', 'ra,xb', [Alt('W', [0x0f, 0x7e], 'b', 'a', pfx=P66)], 'C03')
    form('movq', 'xa,xb', [Alt('N', [0x0f, 0x7e], 'a', 'b', pfx=F3), Alt('N', [0x0f, 0xd6], 'b', 'a', pfx=P66)], 'C03')
    rm_forms('movq', 'xa,m', [Alt('N', [0x0f, 0x7e], 'a', 'm', pfx=F3), Alt('W', [0x0f, 0x6e], 'a', 'm', pfx=P66)], 'C03')
    rm_forms('movq', 'm,xa', [Alt('N', [0x0f, 0xd6], 'a', 'm', pfx=P66), Alt('W', [0x0f, 0x7e], 'a', 'm', pfx=P66)], 'C03')
    for m, p, op in (('addsd', F2, 0x58), ('mulsd', F2, 0x59), ('subsd', F2, 0x5c), ('minsd', F2, 0x5d), ('divsd', F2, 0x5e), ('maxsd', F2, 0x5f),
                     ('sqrtsd', F2, 0x51), ('sqrtpd', P66, 0x51), ('xorps', [], 0x57), ('xorpd', P66, 0x57), ('andpd', P66, 0x54), ('ucomisd', P66, 0x2e)):
        form(m, 'xa,xb', [Alt('N', [0x0f, op], 'a', 'b', pfx=p)], 'C03')
        rm_forms(m, 'xa,m', [Alt('N', [0x0f, op], 'a', 'm', pfx=p)], 'C03')
    form('roundpd', 'xa,xb,u', [Alt('N', [0x0f, 0x3a, 0x09], 'a', 'b', 'u', pfx=P66)], 'C03 C05')
    rm_forms('roundpd', 'xa,m,u', [Alt('N', [0x0f, 0x3a, 0x09], 'a', 'm', 'u', pfx=P66)], 'C03 C05')
    form('cvtsi2sdq', 'xa,rb', [Alt('W', [0x0f, 0x2a], 'a', 'b', pfx=F2)], 'C03')
    rm_forms('cvtsi2sdq', 'xa,m', [Alt('W', [0x0f, 0x2a], 'a', 'm', pfx=F2)], 'C03')
    form('cvttsd2siq', 'ra,xb', [Alt('W', [0x0f, 0x2c], 'a', 'b', pfx=F2)], 'C03')
    rm_forms('cvttsd2siq', 'ra,m', [Alt('W', [0x0f, 0x2c], 'a', 'm', pfx=F2)], 'C03')
    # --- C04
    CC = {'o': 0, 'no': 1, 'b': 2, 'c': 2, 'nae': 2, 'ae': 3, 'nc': 3, 'eq': 4, 'e': 4, 'z': 4, 'ne': 5, 'nz': 5, 'be': 6, 'na': 6, 'a': 7, 'nbe': 7,
          's': 8, 'ns': 9, 'p': 10, 'pe': 10, 'np': 11, 'po': 11, 'lt': 12, 'l': 12, 'nge': 12, 'ge': 13, 'nl': 13, 'le': 14, 'ng': 14, 'gt': 15, 'g': 15, 'nle': 15}
    for c, n in CC.items():
        if c not in ('l', 'g'): form('j' + c, 'l', [REL([0x0f, 0x80 + n])], 'C04')
        sa = lambda rm: [Alt('B', [0x0f, 0x90 + n], ('d', 0), rm)] + ([Alt('N', [0x0f, 0x90 + n], ('d', 0), rm)] if rm == 'm' else [])
        form('set' + c, 'ra', sa('a'), 'C04')
        for sh in MEM if c in ('o', 'ne', 'g') else (MEM[n % 3],): form('set' + c, sh, sa('m'), 'C04')
        for s in 'qlw':
            k, p, _ = SZ[s]
            form('cmov' + c + s, 'ra,rb', [Alt(k, [0x0f, 0x40 + n], 'a', 'b', pfx=p)], 'C04')
            for sh in MEM if c in ('b', 'nz', 'le') else (MEM[(n + 1) % 3],):
                form('cmov' + c + s, 'ra,' + sh, [Alt(k, [0x0f, 0x40 + n], 'a', 'm', pfx=p)], 'C04')
    form('jmp', 'l', [REL([0xe9])], 'C04')
    form('call', 'l', [REL([0xe8])], 'C04')
    for m, d in (('jmp', 4), ('call', 2)):
        rm_forms(m, 'm', [Alt('N', [0xff], ('d', d), 'm')], 'C04')
        for r, name in enumerate(REGS):
            form(m, '=%s:%d' % (name, r), [Alt('N', [0xff], ('d', d), '=%d' % r)], 'C04 C13', name='%s_%s' % (m, name))
    form('call', 'i', [RAW([0xe8], 'l')], 'C04 C05', fits=32)
    for m, o, op, d in (('pushq', 0x50, 0xff, 6), ('popq', 0x58, 0x8f, 0)):
        form(m, 'ra', [O('N', o, 'a'), Alt('N', [op], ('d', d), 'a')], 'C04')
        rm_forms(m, 'm', [Alt('N', [op], ('d', d), 'm')], 'C04')
    for m, b in (('ret', [0xc3]), ('leave', [0xc9]), ('syscall', [0x0f, 0x05]), ('int3', [0xcc])): form(m, '', [RAW(b)], 'C04')
    # --- C13: spellings
    spell()

REGS = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
LEA = [0x8d]

def memop(base, index=None, scale=1, disp=0):
    """explicit memory operand for spelled forms: base/index are numbers or names"""
    return ('mem', base, index, scale, disp)

def spell():
    P = 'C13'
    n = [0]
    def sp(text, alts, ops='', **kw):
        n[0] += 1
        form('sp', ops, alts, P, text=text, name='sp%03d' % n[0], **kw)
    W = lambda op, reg, rm, imm=None, **kw: Alt('W', op, reg, rm, imm, **kw)
    # named registers in every operand position and letter case
    for r, name in enumerate(REGS):
        up, cap = name.upper(), name.capitalize()
        other = (r + 5) % 16
        sp('movq %s, R(a);' % name, [W([0x89], 'a', '=%d' % r), W([0x8b], '=%d' % r, 'a')], 'ra')
        sp('movq R(a), %s;' % up, [W([0x8b], 'a', '=%d' % r), W([0x89], '=%d' % r, 'a')], 'ra')
        sp('addq %s, %s;' % (cap, REGS[other]), [W([0x01], '=%d' % other, '=%d' % r), W([0x03], '=%d' % r, '=%d' % other)])
        sp('lea %s, [%s];' % (up, REGS[other].capitalize()), [W(LEA, '=%d' % r, memop('=%d' % other))])
        sp('movsxl %s, [%s - (d)];' % (name, cap), [W([0x63], '=%d' % r, memop('=%d' % r, disp='-d'))], 'd')
        if r != 4: sp('orq [R(b) + %s * 8 - 24], %s;' % (cap, REGS[other]), [W([0x09], '=%d' % other, memop('b', '=%d' % r, 8, -24))], 'rb')
        sp('testq %s, %s;' % (up, cap), [W([0x85], '=%d' % r, '=%d' % r)])
        sp('xchgq [R(b)], %s;' % cap, [W([0x87], '=%d' % r, memop('b'))], 'rb')
        sp('imul %s, %s;' % (cap, up), [W([0x0f, 0xaf], '=%d' % r, '=%d' % r)])
        sp('pushq %s;' % cap, [O('N', 0x50, '=%d' % r), Alt('N', [0xff], ('d', 6), '=%d' % r)])
        sp('movq xmm%d, xmm%d;' % (r, other), [Alt('N', [0x0f, 0x7e], '=%d' % r, '=%d' % other, pfx=[0xf3]), Alt('N', [0x0f, 0xd6], '=%d' % other, '=%d' % r, pfx=[0x66])])
        sp('addsd xmm%d, xmm(a);' % r, [Alt('N', [0x0f, 0x58], '=%d' % r, 'a', pfx=[0xf2])], 'xa')
        sp('cvttsd2siq %s, xmm%d;' % (up, other), [W([0x0f, 0x2c], '=%d' % r, '=%d' % other, pfx=[0xf2])])
    for c in ('cl', 'CL', 'rcx', 'Rcx', 'R(1)'): sp('shlq R(a), %s;' % c, [W([0xd3], ('d', 4), 'a')], 'ra')
    # address shapes, in each operand parser
    shapes = [('[R(b)]', memop('b')), ('[R(b) + 8]', memop('b', disp=8)), ('[R(b) - 8]', memop('b', disp=-8)), ('[R(b) + 0x7f]', memop('b', disp=127)),
              ('[R(b) - 0x80]', memop('b', disp=-128)), ('[R(b) + 128]', memop('b', disp=128)), ('[R(b) - 129]', memop('b', disp=-129)),
              ('[R(b) + 0x7fff_ffff]', memop('b', disp=0x7fffffff)), ('[R(b) - 2147483647]', memop('b', disp=-0x7fffffff)),
              ('[R(b) + (d)]', memop('b', disp='d')), ('[R(b) - (d)]', memop('b', disp='-d')), ('[R(b) + (16 - 24)]', memop('b', disp=-8)), ('[R(b) - (3 + 4)]', memop('b', disp=-7)),
              ('[R(b) + R(x)]', memop('b', 'x')), ('[R(b) + R(x) + 8]', memop('b', 'x', disp=8)), ('[R(b) + R(x) - 8]', memop('b', 'x', disp=-8)),
              ('[R(b) + R(x) * 1]', memop('b', 'x', 1)), ('[R(b) + R(x) * 2]', memop('b', 'x', 2)), ('[R(b) + R(x) * 4]', memop('b', 'x', 4)), ('[R(b) + R(x) * 8]', memop('b', 'x', 8)),
              ('[R(b) + R(x) * 2 + (d)]', memop('b', 'x', 2, 'd')), ('[R(b) + R(x) * 4 - (d)]', memop('b', 'x', 4, '-d')), ('[R(b) + R(x) * 8 - 0x18]', memop('b', 'x', 8, -24)),
              ('[R(b + 1) + R(x - 1) * 2 - (2 * d)]', memop('b+1', 'x-1', 2, '-2*d')),
              ('[rip + l]', memop('=16', disp='l')), ('[RIP + (d)]', memop('=16', disp='d')), ('[rip - 16]', memop('=16', disp=-16)), ('[rip]', memop('=16'))]
    def opsof(m):
        o = []
        if m[1][0] == 'b': o.append('rb')
        if m[2] is not None and m[2][0] == 'x': o.append('rx')
        if isinstance(m[4], str): o.append('l' if m[4] == 'l' else 'd')
        return o
    hosts = [('lea R(a), %s;', lambda m: W(LEA, 'a', m)), ('movq %s, R(a);', lambda m: W([0x89], 'a', m)), ('movq R(a), %s;', lambda m: W([0x8b], 'a', m)),
             ('subq R(a), %s;', lambda m: W([0x2b], 'a', m)), ('cmpq %s, R(a);', lambda m: W([0x39], 'a', m)),
             ('movsd xmm(a), %s;', lambda m: Alt('N', [0x0f, 0x10], 'a', m, pfx=[0xf2])), ('movsd %s, xmm(a);', lambda m: Alt('N', [0x0f, 0x11], 'a', m, pfx=[0xf2]))]
    for k, (t, m) in enumerate(shapes):
        for h in range(len(hosts)):
            if h == 0 or (k + h) % 3 == 0 or k in (20, 21, 22):
                sp(hosts[h][0] % t, [hosts[h][1](m)], ','.join(['ra'] + opsof(m)))
        sp('jmp %s;' % t, [Alt('N', [0xff], ('d', 4), m)], ','.join(opsof(m)))
    # immediates: literals and expressions, in each immediate parser
    for t, v in (('0', 0), ('1', 1), ('42', 42), ('127', 127), ('128', 128), ('0x7fff', 0x7fff), ('1_000', 1000), ('(-1)', -1), ('(0x10)', 16), ('(-128)', -128), ('(-129)', -129), ('(3 - 5)', -2)):
        im = ('c', v)
        for m, d in (('addq', 0), ('cmpq', 7)):
            sp('%s R(a), %s;' % (m, t), [W([0x83], ('d', d), 'a', ('b',) + im, cond=[('true' if -128 <= v < 128 else 'false',)]), W([0x81], ('d', d), 'a', ('l',) + im)], 'ra')
        sp('movq R(a), %s;' % t, [O('W', 0xb8, 'a', ('q',) + im), W([0xc7], ('d', 0), 'a', ('l',) + im)], 'ra')
        sp('movq R(a), qword %s;' % t, [O('W', 0xb8, 'a', ('q',) + im)], 'ra')
        sp('testq [R(b)], %s;' % t, [W([0xf7], ('d', 0), memop('b'), ('l',) + im)], 'rb')
        if 0 <= v < 128: sp('shlq R(a), %s;' % t, [W([0xd1], ('d', 4), 'a', cond=[('true' if v == 1 else 'false',)]), W([0xc1], ('d', 4), 'a', ('b',) + im)], 'ra')
        if 0 <= v < 16: sp('roundpd xmm(a), xmm3, %s;' % t, [Alt('N', [0x0f, 0x3a, 0x09], 'a', '=3', ('u',) + im, pfx=[0x66])], 'xa')
    sp('addq R(a), (i + 1);', [W([0x83], ('d', 0), 'a', ('b', 'e', 'i+1'), cond=[('fits', 8, 'i+1')]), W([0x81], ('d', 0), 'a', ('l', 'e', 'i+1'))], 'ra,i', pre=[('range', 'i', -1000, 1000)])
    sp('movl R(a), (2 * i);', [O('N', 0xb8, 'a', ('l', 'e', '2*i')), Alt('N', [0xc7], ('d', 0), 'a', ('l', 'e', '2*i'))], 'ra,i', pre=[('range', 'i', -1000, 1000)])
    sp('call (-5);', [RAW([0xe8], ('l', 'c', -5))])
    sp('dq 42;', [RAW([], ('q', 'c', 42))])
    sp('dq 0x1_0000_0000;', [RAW([], ('q', 'c', 1 << 32))])
    sp('dq 9223372036854775807;', [RAW([], ('q', 'c', (1 << 63) - 1))])
    # names of surrounding variables
    for nm in ('imm', 'op1', 'op2', 'rm_op', 'op', 'reg', 'rm', 'disp', 'scale', 'base', 'index', 'dest', 'size', 'cond', 'expr', 'mode', 'val', 'i1', 'offset', 'label', 'pos', 'page', 'op_al', 'digit', 'slice', 'rex', 'this', 'r1', 'r2', 'cl'):
        sp('movq R(%s), (%s as i64);' % (nm, nm), [O('W', 0xb8, 'a', ('q', 'e', 'a')), W([0xc7], ('d', 0), 'a', ('l', 'e', 'a'))], 'ra', name2=nm)
        sp('movq xmm(%s), R(%s);' % (nm, nm), [W([0x0f, 0x6e], 'a', 'a', pfx=[0x66])], 'ra', name2=nm)
        sp('movq R(%s), xmm(%s);' % (nm, nm), [W([0x0f, 0x7e], 'a', 'a', pfx=[0x66])], 'ra', name2=nm)
        sp('movq [R(%s) - (%s)], (%s as i64);' % (nm, nm, nm), [W([0xc7], ('d', 0), memop('a', disp='-a'), ('l', 'e', 'a'))], 'ra', name2=nm)
        sp('movl R(%s), (%s as i64);' % (nm, nm), [O('N', 0xb8, 'a', ('l', 'e', 'a')), Alt('N', [0xc7], ('d', 0), 'a', ('l', 'e', 'a'))], 'ra', name2=nm)
        sp('cmpb R(%s), (%s as i64);' % (nm, nm), [Alt('B', [0x80], ('d', 7), 'a', ('b', 'e', 'a')), RAW([0x3c], ('b', 'e', 'a'), cond=[('zero', 'a')])], 'ra', name2=nm)
        sp('roundpd xmm(%s), xmm(%s), (%s as u8);' % (nm, nm, nm), [Alt('N', [0x0f, 0x3a, 0x09], 'a', 'a', ('u', 'e', 'a'), pfx=[0x66])], 'ra', name2=nm)
        sp('shlq R(%s), (%s as i64);' % (nm, nm), [W([0xd1], ('d', 4), 'a', cond=[('one', 'a')]), W([0xc1], ('d', 4), 'a', ('b', 'e', 'a'))], 'ra', name2=nm)
        sp('testb R(%s), (%s as i64);' % (nm, nm), [Alt('B', [0xf6], ('d', 0), 'a', ('b', 'e', 'a')), RAW([0xa8], ('b', 'e', 'a'), cond=[('zero', 'a')])], 'ra', name2=nm)

# ------------------------------------------------------------------ rendering
SCALES = {1: 0, 2: 1, 4: 2, 8: 3}

def finish():
    """names, parameters, operand text, memory operands"""
    seen = {}
    for k, f in enumerate(FORMS):
        f.params = []          # (name, type)
        txt = []
        f.mem = None
        f.regs = []            # register-valued parameters used as plain registers
        f.lab = False
        def par(n, t):
            if (n, t) not in f.params: f.params.append((n, t))
        for o in f.ops:
            if o in MEM or o == 'd':
                if o == 'mb':
                    par('b', 'u64'); par('d', 'i32'); f.mem = memop('b', disp='d'); txt.append('[R(b) + (d)]')
                elif o == 'mx':
                    sc = (1, 2, 4, 8)[k % 4]
                    par('b', 'u64'); par('x', 'u64'); par('d', 'i32'); f.mem = memop('b', 'x', sc, 'd'); txt.append('[R(b) + R(x) * %d + (d)]' % sc)
                elif o == 'ml':
                    par('l', 'DestLabel'); f.mem = memop('=16', disp='l'); f.lab = True; txt.append('[rip + l]')
                else: par('d', 'i32')
            elif o == 'i': par('i', 'i64'); txt.append('(i)')
            elif o == 'u': par('u', 'u8'); txt.append('(u)')
            elif o == 'l': par('l', 'DestLabel'); f.lab = True; txt.append('l')
            elif o[0] == '=': txt.append(o[1:].split(':')[0])
            elif o[0] in 'rx':
                par(o[1], 'u64'); txt.append(('R(%s)' if o[0] == 'r' else 'xmm(%s)') % o[1])
            else: raise Exception(o)
        if f.text is None: f.text = f.mnem + (' ' if txt else '') + ', '.join(txt) + ';'
        n = f.name or f.mnem + ''.join('_' + o.lstrip('=').replace(':', '') for o in f.ops)
        n = 'w_' + n
        if n in seen: raise Exception('duplicate ' + n)
        seen[n] = 1
        f.name = n
        for a in f.alts:
            if a.rm == 'm': a.rm = f.mem
        f.idx = set(); f.bases = set(); plain = set()
        for a in f.alts:
            if isinstance(a.reg, str): plain.add(a.reg)
            if isinstance(a.rm, str): plain.add(a.rm)
            if isinstance(a.rm, tuple) and a.rm[0] == 'mem':
                f.bases.add((a.rm[1], a.rm[2] is not None))
                if a.rm[2] is not None: f.idx.add(a.rm[2])
                f.memd = a.rm[4]
        f.plain = [p for p in sorted(plain) if p[0] != '=']
        if f.name2: f.params = [(f.name2, 'u64')]

def sub(f, e):
    """operand expression with the parameter's real name"""
    if f.name2: return e.replace('a', f.name2) if e in ('a', '-a') else e
    return e

# -- verifier contracts
def vreg(f, r):
    if r[0] == '=': return 'Reg(%su8)' % r[1:]
    return 'Reg((%s) as u8)' % sub(f, r)
def vseq(b): return 'seq![%s]' % ', '.join('0x%02xu8' % x for x in b) if b else 'Seq::<u8>::empty()'
RX = {'W': 'Rex::REXW', 'N': 'Rex::None', 'B': 'Rex::Byte'}
TY = {'b': ('B', 'i8'), 'w': ('W', 'i16'), 'l': ('L', 'i32'), 'q': ('Q', 'i64'), 'u': ('B', 'i8')}
def ival(f, imm):
    """(size letter, value expression)"""
    if imm is None: return None
    if isinstance(imm, str): return (imm, 'u' if imm == 'u' else 'i')
    if imm[1] == 'c': return (imm[0], '(%d)' % imm[2])
    return (imm[0], '(%s)' % sub(f, imm[2]))
def vimm(f, imm):
    v = ival(f, imm)
    if v is None: return 'Imm::None'
    c, t = TY[v[0]]
    return 'Imm::%s((%s) as %s)' % (c, v[1], t)
def vcond(f, c):
    if c[0] == 'fits': e = sub(f, c[2]) if len(c) > 2 else 'i'; return '-0x%x <= %s < 0x%x' % (1 << (c[1] - 1), e, 1 << (c[1] - 1))
    if c[0] == 'ufits': return '0 <= i < 0x%x' % (1 << c[1])
    if c[0] == 'imm': return 'i == %d' % c[1]
    if c[0] == 'zero': return '%s == 0' % sub(f, c[1])
    if c[0] == 'one': return '%s == 1' % sub(f, c[1])
    if c[0] == 'range': return '%d <= %s <= %d' % (c[2], c[1], c[3])
    return c[0]
def valts(f, a, v, w):
    """verifier expressions: a was executed from state v to state w"""
    V = 'j_emit(%s, %s)' % (v, vseq(a.pfx)) if a.pfx else v
    r = []
    if a.kind == 'M':
        mms = ['ModRM::Digit(%d)' % a.reg[1]] if isinstance(a.reg, tuple) else ['ModRM::Reg(%s)' % vreg(f, a.reg)]
        if isinstance(a.reg, tuple) and a.reg[1] == 0: mms.append('ModRM::Reg(Reg(0))')
        for mm in mms:
            if isinstance(a.rm, tuple):
                _, b, x, sc, d = a.rm
                scale = 'Scale::None' if x is None else 'Scale::S1(%d, %s)' % (SCALES[sc], vreg(f, x))
                if d == 'l': r.append('%s == asm(%s, %s, %s, %s, Rm { base: %s, mode: Mode::Ind(%s, Disp::Label(l)) }, %s)' % (w, V, RX[a.k], vseq(a.op), mm, vreg(f, b), scale, vimm(f, a.imm)))
                else: r.append('m_asm(%s, %s, %s, %s, %s, %s, %s, %s, %s)' % (V, w, RX[a.k], vseq(a.op), mm, vreg(f, b), scale, '(%s) as int' % (sub(f, d) if isinstance(d, str) else d), vimm(f, a.imm)))
            else:
                r.append('%s == asm(%s, %s, %s, %s, Rm { base: %s, mode: Mode::Reg }, %s)' % (w, V, RX[a.k], vseq(a.op), mm, vreg(f, a.rm), vimm(f, a.imm)))
    elif a.kind == 'O':
        e = 'j_emit(%s, rd_bytes(%s, 0x%02xu8, %s))' % (V, RX[a.k], a.op[0], vreg(f, a.rm))
        if a.imm is not None: e = 'j_emit(%s, imm_bytes(%s))' % (e, vimm(f, a.imm))
        r.append('%s == %s' % (w, e))
    elif a.kind == 'R':
        e = 'j_emit(%s, %s)' % (V, vseq(a.op)) if a.op else V
        if a.imm is not None: e = 'j_emit(%s, imm_bytes(%s))' % (e, vimm(f, a.imm))
        r.append('%s == %s' % (w, e))
    else:
        r.append('%s == j_app(%s, %s + le32(0), Some((l, %dint, 4int)))' % (w, V, vseq(a.op), len(a.op)))
        r.append('%s == j_emit(j_reloc(j_emit(%s, %s), l, 0int, 4int), le32(0))' % (w, V, vseq(a.op)))
    if a.cond: r = ['(%s && %s)' % (' && '.join(vcond(f, c) for c in a.cond), x) for x in r]
    return r
def legal(f):
    """conditions under which the instruction must be accepted / which hold if it was"""
    must, may = [], []
    for p in f.plain: must.append('%s < 16' % sub(f, p)); may.append('%s < 16' % sub(f, p))
    for b, hasx in sorted(f.bases):
        if b[0] == '=': continue
        must.append('%s < 16' % sub(f, b)); may.append('%s %s 16' % (sub(f, b), '<' if hasx else '<='))
    for x in sorted(f.idx):
        if x[0] == '=': continue
        c = '%s < 16 && %s != 4' % (x, x)
        must.append(c); may.append(c)
    for c in f.pre:
        if c[0] == 'one': must.append('%s == 1' % c[1]); may.append('%s == 1' % c[1])
    if f.fits == 'shift': must.append('0 <= i <= 127'); may.append('-128 <= i <= 255')
    elif f.fits: c = vcond(f, ('fits', f.fits)); must.append(c); may.append(c)
    return must, may
def always(f):
    """ranges of the Rust expressions in the operands (no overflow)"""
    r = [vcond(f, c) for c in f.pre if c[0] == 'range']
    md = getattr(f, 'memd', None)
    if md == '-d': r.append('d > -0x8000_0000')
    if md == '-2*d': r += ['-1000 <= d <= 1000', 'b < 15', '1 <= x']
    if f.name2: r.append('%s <= 16' % f.name2)
    return r
def contract(f):
    must, may = legal(f)
    o = '=== fn %s\n    requires\n        old(jit).v().inv(), strict() ==> old(jit).v().room(16),\n' % f.name
    if f.lab: o += '        old(jit).v().haslab(l),\n'
    for c in always(f): o += '        %s,\n' % c
    for c in must: o += '        strict() ==> %s,\n' % c
    o += '    ensures\n        final(jit).v().inv(),\n'
    for c in may: o += '        %s,\n' % c
    o += '        ' + '\n        || '.join(x for a in f.alts for x in valts(f, a, 'old(jit).v()', 'final(jit).v()')) + ',\n'
    return o
def wrapper(f):
    return 'pub fn %s(jit: &mut JitMemory%s) {\n    monoasm!(jit, %s);\n}\n' % (f.name, ''.join(', %s: %s' % p for p in f.params), f.text)

# -- native table
def rbytes(b): return '&[%s]' % ', '.join('0x%02x' % x for x in b)
def rexpr(f, e):
    """operand expression over P"""
    import re
    if e[0] == '=': return e[1:]
    e = e.replace('2*', '2 * ')
    if e == '-a': return '-(p.a as i64)'
    return re.sub(r'\b([abxcdiu])\b', lambda m: 'p.' + m.group(1), e)
def rimm(f, imm):
    if imm is None: return 'None'
    if isinstance(imm, str): s, e = imm, ('p.u' if imm == 'u' else 'p.i')
    elif imm[1] == 'c': s, e = imm[0], '%d' % imm[2]
    else: s, e = imm[0], '(%s)' % rexpr(f, imm[2])
    return 'Some((%d, (%s) as i128))' % ({'b': 1, 'u': 1, 'w': 2, 'l': 4, 'q': 8}[s], e)
def rcond(f, c):
    if c[0] == 'fits': e = rexpr(f, c[2]) if len(c) > 2 else 'p.i'; return 'fits(%s as i128, %d)' % ('(%s)' % e, c[1])
    if c[0] == 'ufits': return '(p.i >= 0 && p.i < 0x%x)' % (1 << c[1])
    if c[0] == 'imm': return 'p.i == %d' % c[1]
    if c[0] in ('zero', 'one'): return 'p.%s == %d' % (c[1], c[0] == 'one')
    if c[0] == 'range': return '(p.%s >= %d && p.%s <= %d)' % (c[1], c[2], c[1], c[3])
    return c[0]
def rrm(f, rm):
    if isinstance(rm, tuple):
        _, b, x, sc, d = rm
        if d == 'l': return 'Op::L(p.l)'
        de = rexpr(f, d) if isinstance(d, str) else str(d)
        return 'Op::M { base: (%s) as u64, index: %s, scale: %d, disp: (%s) as i64 }' % (rexpr(f, b), 'None' if x is None else 'Some((%s) as u64)' % rexpr(f, x), sc, de)
    return 'Op::R((%s) as u64)' % rexpr(f, rm)
def ralt(f, a):
    k = {'W': 'K::W', 'N': 'K::N', 'B': 'K::B'}[a.k]
    if a.kind == 'M':
        reg = 'Rg::D(%d)' % a.reg[1] if isinstance(a.reg, tuple) else 'Rg::R((%s) as u64)' % rexpr(f, a.reg)
        e = 'c.m(%s, %s, %s, %s, %s, %s)' % (k, rbytes(a.pfx), rbytes(a.op), reg, rrm(f, a.rm), rimm(f, a.imm))
    elif a.kind == 'O': e = 'c.o(%s, %s, 0x%02x, (%s) as u64, %s)' % (k, rbytes(a.pfx), a.op[0], rexpr(f, a.rm), rimm(f, a.imm))
    elif a.kind == 'R': e = 'c.raw(%s, %s)' % (rbytes(a.pfx + a.op), rimm(f, a.imm))
    else: e = 'c.rel(%s, p.l)' % rbytes(a.op)
    if a.cond: e = '(%s && %s)' % (' && '.join(rcond(f, c) for c in a.cond), e)
    return e
def native(f):
    pcond = [rcond(f, c) for c in f.pre if c[0] == 'range']
    md = getattr(f, 'memd', None)
    if md == '-d': pcond.append('p.d > i32::MIN')
    if md == '-2*d': pcond += ['p.d >= -1000 && p.d <= 1000', 'p.b < 15', 'p.x >= 1', 'p.x <= 16']
    if f.name2: pcond.append('p.a <= 16')
    import re
    pe = lambda s: re.sub(r'\b([abxcdiu])\b', lambda m: 'p.' + m.group(1), re.sub(r'(-?0?x?[0-9a-f]+) <= i < (0?x?[0-9a-f]+)', r'(i >= \1 && i < \2)', re.sub(r'(-?\d+) <= i <= (\d+)', r'(i >= \1 && i <= \2)', s)))
    must, may = legal(f)
    if f.name2: must = [m.replace(f.name2, 'a') for m in must]; may = [m.replace(f.name2, 'a') for m in may]
    J = lambda l: ' && '.join(pe(x) for x in l) or 'true'
    used = [n for n, _ in f.params]
    if f.name2: used = ['a']
    args = ', '.join(('p.l.0' if n == 'l' else 'p.%s' % n) for n in used)
    alts = ' || '.join(ralt(f, a) for a in f.alts)
    return 'Form { name: %s, text: %s, props: %s, uses: %s, run: |j, p| %s(j%s), pre: |p| %s, must: |p| %s, may: |p| %s, check: |p, c| %s },\n' % (
        json.dumps(f.name), json.dumps(f.text), json.dumps(' '.join(f.props)), json.dumps(''.join(used)), f.name, ', ' + args if args else '', ' && '.join(pcond) or 'true', J(must), J(may), alts)

# -- statement sequences (C13): hand-written wrappers with their composition
SEQS = [
 ('w_seq_1', 'a: u64, b: u64, x: u64, l: DestLabel', 'imul R(a), R(b); movsxl R(b), R(a); l: negq R(x); jne l; cqo; ret;',
  ['a < 16', 'b < 16', 'x < 16'],
  ["asm({v}, Rex::REXW, seq![0x0fu8, 0xafu8], ModRM::Reg(Reg(a as u8)), Rm {{ base: Reg(b as u8), mode: Mode::Reg }}, Imm::None)",
   "asm({v}, Rex::REXW, seq![0x63u8], ModRM::Reg(Reg(b as u8)), Rm {{ base: Reg(a as u8), mode: Mode::Reg }}, Imm::None)",
   "j_bind({v}, Page({v}.page as usize), l)",
   "asm({v}, Rex::REXW, seq![0xf7u8], ModRM::Digit(3), Rm {{ base: Reg(x as u8), mode: Mode::Reg }}, Imm::None)",
   "j_app({v}, seq![0x0fu8, 0x85u8] + le32(0), Some((l, 2int, 4int)))",
   "j_emit({v}, seq![0x48u8, 0x99u8])",
   "j_emit({v}, seq![0xc3u8])"]),
 ('w_seq_2', 'a: u64, b: u64, x: u64, l: DestLabel', 'leave; l: ret; idivq R(a); cdq; int3; syscall; divl R(b); cvttsd2siq R(x), xmm(a); sqrtpd xmm(x), xmm(b);',
  ['a < 16', 'b < 16', 'x < 16'],
  ["j_emit({v}, seq![0xc9u8])", "j_bind({v}, Page({v}.page as usize), l)", "j_emit({v}, seq![0xc3u8])",
   "asm({v}, Rex::REXW, seq![0xf7u8], ModRM::Digit(7), Rm {{ base: Reg(a as u8), mode: Mode::Reg }}, Imm::None)",
   "j_emit({v}, seq![0x99u8])", "j_emit({v}, seq![0xccu8])", "j_emit({v}, seq![0x0fu8, 0x05u8])",
   "asm({v}, Rex::None, seq![0xf7u8], ModRM::Digit(6), Rm {{ base: Reg(b as u8), mode: Mode::Reg }}, Imm::None)",
   "asm(j_emit({v}, seq![0xf2u8]), Rex::REXW, seq![0x0fu8, 0x2cu8], ModRM::Reg(Reg(x as u8)), Rm {{ base: Reg(a as u8), mode: Mode::Reg }}, Imm::None)",
   "asm(j_emit({v}, seq![0x66u8]), Rex::None, seq![0x0fu8, 0x51u8], ModRM::Reg(Reg(x as u8)), Rm {{ base: Reg(b as u8), mode: Mode::Reg }}, Imm::None)"]),
 ('w_seq_3', 'l: DestLabel, m: DestLabel', 'jmp m; l: jeq m; m: call l; dq 7; m: l: jmp l;',
  [],
  ["j_app({v}, seq![0xe9u8] + le32(0), Some((m, 1int, 4int)))", "j_bind({v}, Page({v}.page as usize), l)",
   "j_app({v}, seq![0x0fu8, 0x84u8] + le32(0), Some((m, 2int, 4int)))", "j_bind({v}, Page({v}.page as usize), m)",
   "j_emit(j_reloc(j_emit({v}, seq![0xe8u8]), l, 0int, 4int), le32(0))", "j_emit({v}, le64(7))", "j_bind({v}, Page({v}.page as usize), m)", "j_bind({v}, Page({v}.page as usize), l)",
   "j_app({v}, seq![0xe9u8] + le32(0), Some((l, 1int, 4int)))"]),
]
def seq_contract(name, params, text, conds, steps):
    o = '=== fn %s\n    requires\n        old(jit).v().inv(), strict() ==> old(jit).v().room(100),\n' % name
    for n in ('l', 'm'):
        if n + ': DestLabel' in params: o += '        old(jit).v().haslab(%s),\n' % n
    for c in conds: o += '        strict() ==> %s,\n' % c
    o += '    ensures\n        final(jit).v().inv(),\n'
    for c in conds: o += '        %s,\n' % c
    o += '        ({\n            let v0 = old(jit).v();\n'
    for k, s in enumerate(steps): o += '            let v%d = %s;\n' % (k + 1, s.format(v='v%d' % k))
    o += '            final(jit).v() == v%d\n        }),\n--- module c13_seq\n' % len(steps)
    return o

def native_seqs():
    """random statement sequences: one macro call against one call per statement"""
    import random, re
    rng = random.Random(7)
    fs = [f for f in FORMS if not f.name2 and not any(c[0] == 'range' for c in f.pre) and f.name not in SKIP]
    o = 'pub static SEQS: &[(&str, fn(&mut JitMemory, &[DestLabel]), fn(&mut JitMemory, &[DestLabel]))] = &[\n'
    pre = 'let (a, b, x, c, d, i, u): (u64, u64, u64, u64, i32, i64, u8) = (%d, %d, %d, 1, %d, %d, 2); let (la, lb, lc, ld) = (l[0], l[1], l[2], l[3]);'
    BASE = ['jit', '&mut *jit', '&mut jit', '(jit)', '{ jit }', 'h.j', '&mut h.j', 'id(jit)', 'if true { jit } else { panic!() }']
    o = "pub struct H<'a> { pub j: &'a mut JitMemory }\npub fn id(j: &mut JitMemory) -> &mut JitMemory { j }\n" + o
    for k in range(52):
        st = []
        for f in rng.sample(fs, 9 if k < 48 else (1, 40, 150, 300)[k - 48]): st.append(re.sub(r'\bl\b', rng.choice(['la', 'lb', 'lc', 'ld']), f.text))
        for l in ('la', 'lb', 'lc', 'ld'): st.insert(rng.randint(0, len(st)), l + ':')
        p = pre % (rng.choice([0, 3, 10]), rng.choice([1, 5, 9]), rng.choice([2, 6, 12]), rng.choice([-40, 7, 300]), rng.choice([1, 9, 70]))
        b = BASE[k % len(BASE)]
        q = 'let mut h = H { j: jit }; ' if 'h.j' in b else 'let mut jit = jit; ' if b == '&mut jit' else ''
        o += '(%s, |jit, l| { %s %smonoasm!(%s, %s); }, |jit, l| { %s %s }),\n' % (json.dumps(' '.join(st)), p, q, b, ' '.join(st), p, ' '.join('monoasm!(&mut *jit, %s);' % s for s in st))
    return o + '];\n'

# -- spelled variants: the same statements with named registers and literals
NAMES = ('imm op1 op2 rm_op op reg rm disp scale base index dest size cond expr mode val i1 offset label pos page op_al digit slice rex this r1 r2 cl '
         'a b c d e f g h i k m n o p q r s t u v w x y z tmp temp value imm8 imm16 imm32 imm64 opcode prefix bytes buf mem addr src dst lhs rhs target width num res ret out ptr byte off rel idx len code arg l').split()
LABELS = ('r rx xmm_l loop_ qword jmp l1 dest imm op1 _l rip_l label reg disp tmp rax_ rdi_ _rbx r8_ r15_ rip_ cl_ rsp0 rcx1 r1 r99 rax2 xrax rbpx ripp cll loop0 L8 Lrax lrax to_rax rax_exit r10_slow '
          'ret_ call_ dq set cmov o e ne a b c x y z').split()
def names_in_macro():
    """names the macro's source binds anywhere: if one of them is bound around an operand
    expression of the user, a variable of that name would be captured"""
    import re, glob
    t = ''
    for p in sorted(glob.glob(os.environ.get('MONOASM_REPO', '/repo') + '/monoasm_macro/src/*.rs')): t += open(p).read()
    n = re.findall(r'\blet\s+(?:mut\s+)?([a-z]\w*)', t) + re.findall(r'\b(?:Ok|Some|Err)\(\s*(?:mut\s+)?([a-z]\w*)\s*\)', t) + re.findall(r'\bfor\s+([a-z]\w*)\s+in\b', t) + re.findall(r'\|([a-z]\w*)\|', t)
    import keyword
    bad = set('jit if else let mut ref match fn move self super crate in for while loop as use mod pub where type true false impl dyn async await box static const enum struct trait unsafe return break continue'.split())
    return [x for x in dict.fromkeys(NAMES + n) if x not in bad]

def variants(prop):
    """(native only: every operand is a constant, so running it once decides it)"""
    import random
    rng = random.Random(11)
    SPECIAL = [0, 5, 12, 4, 13, 1, 8, 7]
    IMM = [0, 1, 127, 128, -1, -128, -129, 255, 256, 32767, 32768, -32768, 0x7fffffff, -0x80000000, 0x80000000, 1 << 40, 2, 8, 16, 63]
    DISP = [0, 8, -8, 0, 127, -128, 128, -129, 0, 1024, -4096]
    name = lambda r, k: [REGS[r], REGS[r], REGS[r].upper(), REGS[r].capitalize()][k % 4]
    def lit(v, k=0):
        """the value as it may be written: decimal, hexadecimal, octal, binary, grouped, suffixed, expression"""
        ty = 'i32' if -1 << 31 <= v < 1 << 31 else 'i64'
        if k % 9 == 1: return '(%d%s ^ 0x55)' % (v ^ 0x55, ty)
        if k % 9 == 2: return '({ let k: %s = %d; k + 0 })' % (ty, v)
        if v < 0: return '(-%d)' % -v if k % 9 < 6 else '(-0x%x)' % -v if k % 9 < 8 else '(!%d)' % ~v
        if v >= 1 << 31: return '(%di64)' % v if k % 9 < 5 else '0x%xi64' % v if k % 9 < 7 else '0x%x_u64' % v
        return ['%d', '', '', '0x%x', '%d', '0x0%X', 'O', '%d_', '%d' + 'i64'][k % 9] % v if k % 9 != 6 else (oct(v) if k % 2 else bin(v))
    def dlit(v, k):
        return ['%d', '0x%x', '%d', '(%d)', '%d_', '(%d + 0)', '0x_%X', '%di32'][k % 8] % v if k % 16 != 9 else bin(v)
    ALL = names_in_macro()
    conj = lambda: ' & '.join(ALL)
    out = ['', '']
    def add(n, pre, t, fi, P, f):
        if n in SKIP: return
        out[0] += 'pub fn %s(jit: &mut JitMemory, l: DestLabel) { %smonoasm!(jit, %s); }\n' % (n, pre, t)
        out[1] += '(%d, V { a: %d, b: %d, x: %d, c: 1, d: %d, i: %d, u: %d }, %s, %s),\n' % (fi, P['a'], P['b'], P['x'], P['d'], P['i'], P['u'], json.dumps((pre if len(pre) < 60 else '') + t), n)
        VTEXT[n] = {'text': t, 'props': f.props + ['C13']}
    cnt = {}
    for fi, f in enumerate(ORDER):
        if prop != 'C13' and prop not in f.props: continue
        if f.name2 or f.mnem == 'sp' or not f.params or any(c[0] == 'range' for c in f.pre): continue
        cc = cnt.setdefault(f.mnem, [0])
        # as many variants as the operands need
        nv = max(len(IMM) if 'i' in f.ops else 0, 8 if any(p[0] in 'abx' for p in f.params) else 1)
        if f.mnem.startswith(('cmov', 'set')): nv = 2
        if f.mnem in ('jmp', 'call', 'jne') and f.ops == ['l'] or f.mnem == 'lea' and 'ml' in f.ops: nv = 1 + len(LABELS)
        for v in range(nv):
            cc[0] += 1
            h = cc[0]
            P = {'a': SPECIAL[v % 8] if v < 8 else rng.randrange(16), 'b': SPECIAL[(v * 3 + h) % 8], 'x': [0, 1, 2, 5, 8, 12, 13, 15][(v * 5 + h) % 8], 'c': 1,
                 'd': DISP[(v + h) % len(DISP)], 'i': IMM[v % len(IMM)], 'u': [0, 1, 3, 8, 127, 255, 4, 9][v % 8]}
            if not any(isinstance(a.rm, tuple) for a in f.alts): P['b'] = SPECIAL[(v * 3 + v // 8) % 8]
            txt, pre = [], ''
            for o in f.ops:
                if o in ('mb', 'mx'):
                    b = name(P['b'], h) if h % 5 else ['R(%d)', 'R(%d + 0)'][h // 5 % 2] % P['b']
                    if o == 'mx':
                        sc = f.mem[3]
                        b += ' + ' + (name(P['x'], h + 1) if h % 3 else 'R(%du64)' % P['x']) + ('' if sc == 1 and h % 2 else ' * %d' % sc)
                    d = P['d']
                    if d == 0 and v % 2 == 0: txt.append('[%s]' % b)
                    else: txt.append('[%s %s %s]' % (b, '-' if d < 0 else '+', dlit(abs(d), h + h // 8)))
                elif o in ('ml', 'l'):
                    ln = (['l'] + LABELS)[h % (1 + len(LABELS))]
                    if ln != 'l': pre = 'let %s = l; ' % ln
                    txt.append(ln if o == 'l' else ['[rip + %s]', '[RIP + %s]'][h % 2] % ln)
                elif o == 'i': txt.append(lit(P['i'], h + h // 9) if f.mnem != 'call' else '(%di64)' % P['i'])
                elif o == 'u': txt.append(['%d', '(%du8 ^ 0)', '0x%x', '%du8'][h % 4] % P['u'])
                elif o[0] == '=': txt.append(o[1:].split(':')[0])
                elif o[0] == 'r': txt.append(name(P[o[1]], h + v) if o != 'rc' else ['cl', 'rcx', 'CL'][v % 3])
                elif o[0] == 'x': txt.append(['xmm%d', 'xmm%d', 'xmm(%d)', 'xmm(%d + 0)'][h % 4] % P[o[1]])
            t = f.mnem + ' ' + ', '.join(txt) + ';'
            if f.text.find('qword') >= 0: t = t.replace(', ', ', qword ', 1)
            add('v' + f.name[1:] + '_%d' % v, pre, t, fi, P, f)
        # every name a surrounding variable may have, in every operand expression at once
        if f.mnem[:4] in ('cmov', 'seto', 'setn', 'setg') and f.mnem not in ('cmovoq', 'cmovol', 'cmovow', 'seto'): continue
        P = {'a': 7, 'b': 7, 'x': 7, 'c': 1, 'd': 14, 'i': 24, 'u': 7}
        txt = []
        for o in f.ops:
            if o == 'mb': txt.append('[R(%s) + ((%s) as i32 + 7)]' % (conj(), conj()))
            elif o == 'mx': txt.append('[R(%s) + R(%s) * %d + ((%s) as i32 + 7)]' % (conj(), conj(), f.mem[3], conj()))
            elif o == 'i': txt.append('((%s) as i64 + 17)' % conj() if f.mnem != 'call' else '((%s) as i64 + 17)' % conj())
            elif o == 'u': txt.append('((%s) as u8)' % conj())
            elif o in ('ml', 'l') or o[0] == '=' or o == 'rc': txt = None; break
            elif o[0] == 'r': txt.append('R(%s)' % conj())
            elif o[0] == 'x': txt.append('xmm(%s)' % conj())
        if txt is None: continue
        t = f.mnem + ' ' + ', '.join(txt) + ';'
        if f.text.find('qword') >= 0: t = t.replace(', ', ', qword ', 1)
        add('v' + f.name[1:] + '_99', 'let [%s] = [7u64; %d]; ' % (', '.join(ALL), len(ALL)), t, fi, P, f)
    W, T = out
    return W + 'pub static VARIANTS: &[(usize, V, &str, fn(&mut JitMemory, DestLabel))] = &[\n' + T + '];\n'

# -- statements outside the table (C13): operand kinds that form no x86-64 instruction
def matrix():
    import itertools
    kind = lambda o: 'm' if o in MEM else 'i' if o in ('i', 'u') else 'r' if o[0] in '=r' else o[0]
    acc, mn = set(), []
    for f in FORMS:
        if f.mnem == 'sp' or f.name2: continue
        if f.mnem not in mn: mn.append(f.mnem)
        acc.add((f.mnem, tuple(kind(o) for o in f.ops)))
    # real instructions the macro does not offer: nothing is said about them
    REAL = [('pushq', 'i'), ('imul', 'ri'), ('imul', 'rri'), ('imul', 'rmi'), ('imul', 'r'), ('imul', 'm'), ('testq', 'rm'), ('testb', 'rm'), ('ret', 'i'), ('movq', 'rr')]
    T = [{'r': 'rbx', 'm': '[rsi + 8]', 'i': '5', 'x': 'xmm1'}, {'r': 'rdi', 'm': '[rcx]', 'i': '6', 'x': 'xmm2'}, {'r': 'rdx', 'm': '[rdx]', 'i': '7', 'x': 'xmm3'}]
    L = []
    for m in mn:
        if m[0] == 'j' or m == 'call': continue
        for n in (0, 1, 2, 3):
            for ks in itertools.product('rmix', repeat=n):
                if n == 3 and not (ks[0] in 'rx' and ks[1] in 'rmx' and ks[2] in 'ri'): continue
                if (m, ks) in acc or (m, ''.join(ks)) in REAL: continue
                L.append('%s %s;' % (m, ', '.join(T[k][x] for k, x in enumerate(ks))) if ks else m + ';')
    return L

VTEXT = {}
ORDER = []
SKIP = set()
def generate(out, props=None, chunk=30):
    build(); finish()
    os.makedirs(out, exist_ok=True)
    W, C, T = '', '', ''
    groups = {}
    for f in FORMS: groups.setdefault('_'.join(p.lower() for p in f.props), []).append(f)
    mods = {}
    for g, fs in groups.items():
        for k, f in enumerate(fs):
            if f.name in SKIP: continue
            m = '%s_%02d' % (g, k // chunk)
            mods[m] = [p.upper() for p in g.split('_')]
            f.mod = m
            C += contract(f) + '--- module %s\n' % m
            W += wrapper(f)
            T += native(f)
            ORDER.append(f)
    for s in SEQS:
        if s[0] in SKIP: continue
        C += seq_contract(*s)
        W += 'pub fn %s(jit: &mut JitMemory, %s) {\n    monoasm!(jit, %s);\n}\n' % (s[0], s[1], s[2])
    mods['c13_seq'] = ['C13']
    # vacuity guard: the same hypotheses with an impossible conclusion must not verify
    W += 'pub fn w_canary(jit: &mut JitMemory, a: u64, i: i64, l: DestLabel) {\n    monoasm!(jit, movq R(a), (i); addq R(a), [rip + l];);\n}\n'
    C += ('=== fn w_canary\n    requires\n        old(jit).v().inv(), strict(), old(jit).v().room(100), old(jit).v().haslab(l), a < 16,\n'
          '    ensures\n        false,\n--- module canary\n')
    open(out + '/wrappers.rs', 'w').write('use monoasm::*;\nuse monoasm_macro::monoasm;\n' + W)
    open(out + '/forms.ct', 'w').write(C)
    open(out + '/variants.rs', 'w').write(variants(os.environ.get('FORMS_PROP', '')))
    open(out + '/seqs.rs', 'w').write(native_seqs())
    open(out + '/table.rs', 'w').write('pub static FORMS: &[Form] = &[\n' + T + '];\n')
    json.dump({'modules': mods, 'forms': {f.name: {'text': f.text, 'props': f.props, 'module': f.mod} for f in FORMS if f.name not in SKIP}, 'variants': VTEXT}, open(out + '/forms.json', 'w'))

if __name__ == '__main__':
    # usage: forms.py OUTDIR [form names to leave out]
    SKIP.update(sys.argv[2:])
    generate(sys.argv[1])
    print(len(FORMS), 'forms')
