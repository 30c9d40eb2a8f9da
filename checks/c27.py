"""C27: key export in PKCS#8 and X.509 form is standard and round-trips."""
import shutil
import subprocess

from hypothesis import strategies as st

import gens
import keypool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are key parameters (numbers of any size, or keys of the pool), structures with one '
          'defect, mutated encodings and signature numbers. Non-trivial: all but empty input.')

RSA_OID = bytes.fromhex('06092a864886f70d010101')
DSA_OID = bytes.fromhex('06072a8648ce380401')
NULL = b'\x05\x00'
RSA_NAMES = ['n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq']
DSA_NAMES = ['p', 'q', 'g']


# --- DER by its definition --------------------------------------------------
def tlv(tag, body):
    n = len(body)
    if n < 128:
        length = bytes([n])
    else:
        b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        length = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + length + body


def integer(n):
    size = (n if n >= 0 else ~n).bit_length() // 8 + 1
    return tlv(2, n.to_bytes(size, 'big', signed=True))


def seq(*items):
    return tlv(0x30, b''.join(items))


def octets(b):
    return tlv(4, b)


def bits(b):
    return tlv(3, b'\0' + b)


def rsa_pkcs8(d, version=0, inner=0, oid=RSA_OID, extra=(), fields=(), drop=0):
    ints = [integer(inner)] + [integer(d[k]) for k in RSA_NAMES] + [integer(x) for x in fields]
    ints = ints[:len(ints) - drop]
    return seq(integer(version), seq(oid, NULL), octets(seq(*ints)), *extra)


def dsa_pkcs8(d, version=0, oid=DSA_OID, extra=(), names=DSA_NAMES):
    return seq(integer(version), seq(oid, seq(*[integer(d[k]) for k in names])),
               octets(integer(d['x'])), *extra)


def rsa_x509(d, oid=RSA_OID, extra=(), names=('n', 'e')):
    return seq(seq(oid, NULL), bits(seq(*[integer(d[k]) for k in names])), *extra)


def dsa_x509(d, oid=DSA_OID, extra=(), names=DSA_NAMES):
    return seq(seq(oid, seq(*[integer(d[k]) for k in names])), bits(integer(d['y'])), *extra)


def read_sig(b):
    """(r, s) of a DER signature, None if it is not exactly one."""
    def head(b, i):
        n = b[i]
        i += 1
        if n & 0x80:
            k = n & 0x7f
            if not 1 <= k <= 4:
                raise ValueError
            n = int.from_bytes(b[i:i + k], 'big')
            i += k
        return n, i
    try:
        if b[0] != 0x30:
            return None
        n, i = head(b, 1)
        if i + n != len(b):
            return None
        out = []
        for _ in range(2):
            if b[i] != 2:
                return None
            n, i = head(b, i + 1)
            if n < 1 or i + n > len(b):
                return None
            out.append(int.from_bytes(b[i:i + n], 'big', signed=True))
            i += n
        if i != len(b) or seq(integer(out[0]), integer(out[1])) != b:
            return None
        return tuple(out)
    except (IndexError, ValueError):
        return None


# --- one element of a structure made something else ---------------------------------
ODD = ['0901', '09098307100000000000', '090d03314539393939393939393939', '0100', '0101ff', '0500', '0c0141',
       '0c02c328', '0a0101', '1300', '170d', '18024142', '0601', '060180', '0300', '030109', '0400',
       '3000', '3100', '3080', '0000', 'a000', '8000', '1f8100', '020100', '0200', '0201ff',
       '0288ffffffffffffffff', '30888000000000000000', '0289ffffffffffffffffff', '02fe', '02ff',
       '0480', '2403040141', '2480040141000', '23050303000101']
ODD = [x for x in ODD if len(x) % 2 == 0]


def elements(b, lo=0, hi=None, depth=0):
    """(start, end, spans of the elements around it) of every element of well-formed DER"""
    hi = len(b) if hi is None else hi
    out, i = [], lo
    while i + 2 <= hi and depth < 8:
        tag, n, j = b[i], b[i + 1], i + 2
        if n & 0x80:
            k = n & 0x7f
            n, j = int.from_bytes(b[j:j + k], 'big'), j + k
        if j + n > hi or n == 0 and tag == 0:
            return []
        out.append((i, j, j + n))
        inner = j + (tag == 3)
        if tag in (0x30, 0x04, 0x03) and n:
            sub = elements(b, inner, j + n, depth + 1)
            if sub and (tag == 0x30 or sub[0][0] == inner):
                out += sub
        i = j + n
    return out


def replaced(b, span, new):
    """b with the element at span made new, and the lengths around it put right"""
    start, _, end = span
    def go(lo, hi):
        i, out = lo, b''
        while i < hi:
            tag, n, j = b[i], b[i + 1], i + 2
            if n & 0x80:
                k = n & 0x7f
                n, j = int.from_bytes(b[j:j + k], 'big'), j + k
            if (i, j + n) == (start, end):
                out += new
            elif i < start and end <= j + n:
                skip = 1 if tag == 3 else 0
                out += tlv(tag, b[j:j + skip] + go(j + skip, j + n))
            else:
                out += b[i:j + n]
            i = j + n
        return out
    return go(0, len(b))


# --- strategies ----------------------------------------------------------------
NUM = st.one_of(
    st.integers(0, 300), st.integers(0, 2 ** 64), st.integers(0, 2 ** 1100),
    st.builds(lambda e, x: max(0, 2 ** e + x), st.integers(0, 2100), st.integers(-1, 1)))
HEX = NUM.map(hex)
PARAMS = st.fixed_dictionaries({k: HEX for k in set(RSA_NAMES + DSA_NAMES + ['x', 'y'])})
FORMS = ['rsa_pkcs8', 'dsa_pkcs8', 'rsa_x509', 'dsa_x509']


def numbers(d):
    return {k: int(v, 16) for k, v in d.items()}


def forms(d):
    """name -> (DER, exporter, parser, names)"""
    return {
        'rsa_pkcs8': (rsa_pkcs8(d), util.ExportRsaPkcs8, util.ParsePkcs8, RSA_NAMES),
        'dsa_pkcs8': (dsa_pkcs8(d), util.ExportDsaPkcs8, util.ParsePkcs8, DSA_NAMES + ['x']),
        'rsa_x509': (rsa_x509(d), util.ExportRsaX509, util.ParseX509, ['n', 'e']),
        'dsa_x509': (dsa_x509(d), util.ExportDsaX509, util.ParseX509, DSA_NAMES + ['y'])}


def both_ways(d, name):
    der, export, parse, names = forms(d)[name]
    want = {k: d[k] for k in names}
    text = export(dict(want))
    require(ref.b64d(text) == der, '%s exports %s', name, short(text))
    got = parse(text)
    require(dict(got) == want, '%s parses to %s', name, short(got))
    got = parse(ref.b64e(der))
    require(dict(got) == want, '%s of another tool parses to %s', name, short(got))
    return der


@R.prop(st.fixed_dictionaries({'params': PARAMS}), quick=1000, thorough=30000)
def any_numbers(case, ctx):
    d = numbers(case['params'])
    for name in FORMS:
        both_ways(d, name)
    ctx.nontrivial()


def pool(tier):
    for i in range(len(keypool.RSA)):
        yield {'kind': 'rsa', 'i': i}
    for i in range(len(keypool.DSA)):
        yield {'kind': 'dsa', 'i': i}


def openssl(args, data):
    r = subprocess.run(['openssl'] + args, input=data, capture_output=True)
    return r.stdout if r.returncode == 0 else None


@R.enum(pool)
def real_keys(case, ctx):
    """Keys of the pool, also read by the openssl tool: from the private key it must derive
    exactly the exported public key."""
    if case['kind'] == 'rsa':
        k = keypool.rsa(case['i'])
        d = {'n': k.n, 'e': k.e, 'd': k.d, 'p': k.p, 'q': k.q, 'dp': k.d % (k.p - 1),
             'dq': k.d % (k.q - 1), 'invq': pow(k.q, -1, k.p)}
        d.update(x=1, y=1, g=1)
    else:
        k = keypool.dsa(case['i'])
        d = {'p': k.p, 'q': k.q, 'g': k.g, 'x': k.x, 'y': k.y}
        d.update(n=1, e=1, d=1, dp=1, dq=1, invq=1)
    both_ways(d, case['kind'] + '_pkcs8')
    both_ways(d, case['kind'] + '_x509')
    names = RSA_NAMES if case['kind'] == 'rsa' else DSA_NAMES + ['x', 'y']
    params = {n: d[n] for n in names}
    priv, pub = ((util.ExportRsaPkcs8, util.ExportRsaX509) if case['kind'] == 'rsa'
                 else (util.ExportDsaPkcs8, util.ExportDsaX509))
    priv, pub = ref.b64d(priv(params)), ref.b64d(pub(params))
    if shutil.which('openssl'):
        got = openssl(['pkey', '-inform', 'DER', '-pubout', '-outform', 'DER'], priv)
        require(got == pub, 'openssl reads another key: %s', short(got))
        got = openssl(['pkey', '-pubin', '-inform', 'DER', '-pubout', '-outform', 'DER'], pub)
        require(got == pub, 'openssl reads another public key: %s', short(got))
        ctx.label('openssl')
    ctx.nontrivial()


DEFECTS = ['version', 'inner version', 'oid', 'field more', 'one field', 'inner more', 'inner less',
           'oid of the other', 'empty', 'params']


@R.prop(st.fixed_dictionaries({
    'params': PARAMS, 'form': st.sampled_from(FORMS), 'defect': st.sampled_from(DEFECTS),
    'v': st.one_of(st.integers(1, 300), st.integers(-5, -1)),
    'oid': st.sampled_from(['06092a864886f70d010102', '06092a864886f70d010105', '06052b0e03021a',
                            '06072a8648ce3d0201', '06072a8648ce380403', '06082a864886f70d0101'])}),
    quick=1500, thorough=40000)
def refused(case, ctx):
    d = numbers(case['params'])
    f, v, defect = case['form'], case['v'], case['defect']
    oid = bytes.fromhex(case['oid'])
    pkcs8 = f.endswith('pkcs8')
    maker = {'rsa_pkcs8': rsa_pkcs8, 'dsa_pkcs8': dsa_pkcs8, 'rsa_x509': rsa_x509,
             'dsa_x509': dsa_x509}[f]
    if defect == 'version' and pkcs8:
        der = maker(d, version=v)
    elif defect == 'inner version' and f == 'rsa_pkcs8':
        der = maker(d, inner=v)
    elif defect == 'oid':
        der = maker(d, oid=oid)
    elif defect == 'field more':
        der = maker(d, extra=[integer(v)])
    elif defect == 'one field':
        der = seq(integer(0))
    elif defect == 'inner more' and f == 'rsa_pkcs8':
        der = maker(d, fields=[v])
    elif defect == 'inner less' and f == 'rsa_pkcs8':
        der = maker(d, drop=1 + v % 8)
    elif defect == 'inner more' and f != 'rsa_pkcs8':
        der = maker(d, names={'rsa_x509': ['n', 'e', 'd']}.get(f, ['p', 'q', 'g', 'n']))
    elif defect == 'inner less' and f != 'rsa_pkcs8':
        der = maker(d, names={'rsa_x509': ['n']}.get(f, ['p', 'q']))
    elif defect == 'oid of the other':
        # an RSA key named DSA and the other way
        der = maker(d, oid=DSA_OID if f.startswith('rsa') else RSA_OID)
    elif defect == 'empty':
        der = b''
    elif defect == 'params':
        der = seq(*([integer(0)] if pkcs8 else []), integer(v), octets(b'x'))
    else:
        return
    parse = util.ParsePkcs8 if pkcs8 else util.ParseX509
    raises(lambda: parse(ref.b64e(der)))
    # the other kind of structure is refused as well
    raises(lambda: (util.ParseX509 if pkcs8 else util.ParsePkcs8)(ref.b64e(maker(d))))
    ctx.label(defect)
    ctx.nontrivial()


@R.prop(st.fixed_dictionaries({
    'params': PARAMS, 'form': st.sampled_from(FORMS), 'text': st.one_of(st.none(), gens.bstr(0, 60)),
    'muts': st.lists(gens.mutations(), min_size=1, max_size=3)}), quick=2000, thorough=60000)
def damaged(case, ctx):
    """A damaged structure gives a Keyczar error or numbers, nothing else."""
    d = numbers(case['params'])
    der, _, parse, names = forms(d)[case['form']]
    if case['text'] is not None:
        der = B(case['text'])
    for m in case['muts']:
        der = gens.mutate(der, m)
    kind, v = outcome(lambda: parse(ref.b64e(der)))
    if kind == 'ok':
        require(all(isinstance(x, int) for x in dict(v).values()), 'gives %s', short(v))
        require(set(v) in [set(n) for _, _, p, n in forms(d).values() if p is parse],
                'gives only %s', sorted(v))
    ctx.label(kind)
    ctx.nontrivial(len(der) > 0)


@R.prop(st.fixed_dictionaries({
    'params': PARAMS, 'form': st.sampled_from(FORMS), 'at': st.integers(0, 30),
    'odd': st.one_of(st.sampled_from(ODD), st.binary(max_size=12).map(lambda b: b.hex()))}), quick=1500, thorough=40000)
def retyped(case, ctx):
    """One element of a structure made one of another type, or of an impossible length, with all
    lengths around it right: a Keyczar error or numbers, nothing else."""
    d = numbers(case['params'])
    der, _, parse, names = forms(d)[case['form']]
    spans = elements(der)
    der = replaced(der, spans[case['at'] % len(spans)], bytes.fromhex(case['odd']))
    kind, v = outcome(lambda: parse(ref.b64e(der)))
    if kind == 'ok':
        require(all(isinstance(x, int) for x in dict(v).values()), 'gives %s', short(v))
        require(set(v) in [set(n) for _, _, p, n in forms(d).values() if p is parse],
                'gives only %s', sorted(v))
    ctx.label(kind)
    ctx.nontrivial()


SIGN_NUM = st.one_of(NUM, st.integers(0, 2 ** 160), st.integers(0, 2 ** 160)).map(hex)


@R.prop(st.fixed_dictionaries({
    'r': SIGN_NUM, 's': SIGN_NUM, 'how': st.sampled_from(
        ['good', 'muts', 'muts', 'tail', 'three', 'one', 'indefinite', 'long length', 'padded',
         'wrapped', 'set', 'octets', 'text', 'odd']),
    'odd': st.sampled_from(ODD), 'at': st.integers(0, 2),
    'muts': st.lists(gens.mutations(), min_size=1, max_size=3), 'text': gens.bstr(0, 50)}),
    quick=3000, thorough=100000)
def signatures(case, ctx):
    r, s = int(case['r'], 16), int(case['s'], 16)
    good = seq(integer(r), integer(s))
    made = util.MakeDsaSig(r, s)
    require(B(made) == good, 'made %s', short(made))
    how = case['how']
    b = good
    if how == 'muts':
        for m in case['muts']:
            b = gens.mutate(b, m)
    elif how == 'tail':
        b = good + (B(case['text']) or b'\0')
    elif how == 'three':
        b = seq(integer(r), integer(s), integer(len(case['text'])))
    elif how == 'one':
        b = seq(integer(r))
    elif how == 'indefinite':
        b = b'\x30\x80' + integer(r) + integer(s) + b'\0\0'
    elif how == 'long length':
        body = integer(r) + integer(s)
        b = b'\x30\x84' + len(body).to_bytes(4, 'big') + body
    elif how == 'padded':
        raw = r.to_bytes(r.bit_length() // 8 + 2, 'big', signed=True)
        b = seq(tlv(2, raw), integer(s))
    elif how == 'wrapped':
        b = seq(good)
    elif how == 'set':
        b = tlv(0x31, integer(r) + integer(s))
    elif how == 'octets':
        b = seq(octets(integer(r)), octets(integer(s)))
    elif how == 'text':
        b = B(case['text'])
    elif how == 'odd':
        b = replaced(good, elements(good)[case['at']], bytes.fromhex(case['odd']))
    want = read_sig(b)
    kind, v = outcome(lambda: util.ParseDsaSig(S(b)))
    if want is None:
        require(kind == 'error', 'a malformed signature is read as %s', short(v))
    elif min(want) < 0:         # no signature has negative numbers
        require(kind == 'error' or tuple(v) == want, 'read as %s', short(v))
    else:
        require(kind == 'ok', 'refused: %s', v)
        require(tuple(v) == want, 'read as %s', short(v))
    ctx.label(how, 'good' if want else 'malformed')
    ctx.nontrivial(len(b) > 0)
