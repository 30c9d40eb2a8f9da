"""Makes /verif/data/keypool.json: RSA and DSA keys generated by openssl.

Run once by hand (python3 make_keypool.py); the result is committed, because
generating asymmetric keys is too slow to do per test case.
"""
import json
import os
import re
import subprocess

def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, **k).stdout

def ints(text, names):
    out = {}
    cur = None
    for line in text.splitlines():
        m = re.match(r'^([A-Za-z0-9]+):\s*(.*)$', line)
        if m:
            cur = m.group(1)
            rest = m.group(2)
            out[cur] = rest if rest else ''
        elif cur and re.match(r'^\s+[0-9a-f:]+$', line):
            out[cur] += line.strip()
    res = {}
    for n in names:
        v = out[n]
        m = re.match(r'^(\d+) \(0x', v)
        res[n] = int(m.group(1)) if m else int(v.replace(':', ''), 16)
    return res

def rsa(bits, e):
    pem = sh('openssl', 'genrsa', *(['-3'] if e == 3 else []), str(bits))
    t = sh('openssl', 'rsa', '-noout', '-text', input=pem).decode()
    v = ints(t, ['modulus', 'publicExponent', 'privateExponent', 'prime1', 'prime2',
                 'exponent1', 'exponent2', 'coefficient'])
    return {'bits': bits, 'n': hex(v['modulus']), 'e': v['publicExponent'],
            'd': hex(v['privateExponent']), 'p': hex(v['prime1']), 'q': hex(v['prime2'])}

def dsa(params):
    pem = sh('openssl', 'gendsa', '/dev/stdin', input=params)
    t = sh('openssl', 'dsa', '-noout', '-text', input=pem).decode()
    v = ints(t, ['priv', 'pub', 'P', 'Q', 'G'])
    return v['P'], v['Q'], v['G'], v['priv'], v['pub']

def probable_prime_below(n, coprime_e=65537):
    import random
    r = random.Random(7)
    n |= 1
    while True:
        n -= 2
        if any(n % s == 0 for s in (3, 5, 7, 11, 13, 17, 19, 23, 29, 31)):
            continue
        if (n - 1) % coprime_e == 0:
            continue
        d, s = n - 1, 0
        while d % 2 == 0:
            d //= 2
            s += 1
        ok = True
        for _ in range(24):
            a = r.randrange(2, n - 1)
            x = pow(a, d, n)
            if x in (1, n - 1):
                continue
            for _ in range(s - 1):
                x = x * x % n
                if x == n - 1:
                    break
            else:
                ok = False
                break
        if ok:
            return n

def main():
    pool = {'rsa': [], 'dsa': []}
    for bits, count in ((512, 4), (768, 3), (1024, 6), (2048, 3), (4096, 2)):
        for i in range(count):
            pool['rsa'].append(rsa(bits, 3 if i == 1 else 65537))
    # an RSA modulus whose top 400 bits are all ones (float log2 rounds up)
    p = probable_prime_below(1 << 512)
    q = probable_prime_below(p)
    d = pow(65537, -1, (p - 1) * (q - 1))
    pool['rsa'].append({'bits': 1024, 'n': hex(p * q), 'e': 65537, 'd': hex(d),
                        'p': hex(p), 'q': hex(q), 'note': 'n close to 2^1024'})
    params = [sh('openssl', 'genpkey', '-genparam', '-algorithm', 'DSA', '-pkeyopt',
                 'dsa_paramgen_bits:1024', '-pkeyopt', 'dsa_paramgen_q_bits:160')
              for _ in range(3)]
    for ps in params:
        P, Q, G, x, y = dsa(ps)
        pool['dsa'].append({'p': hex(P), 'q': hex(Q), 'g': hex(G), 'x': hex(x), 'y': hex(y)})
    # edge: y with a leading zero byte; x small; y with its top bit clear
    x = 2
    want = {'zero': lambda y: y.bit_length() <= 1016,
            'clear': lambda y: 1016 < y.bit_length() < 1024}
    while want:
        y = pow(G, x, P)
        for k in list(want):
            if want[k](y):
                pool['dsa'].append({'p': hex(P), 'q': hex(Q), 'g': hex(G), 'x': hex(x),
                                    'y': hex(y), 'note': 'y ' + k})
                del want[k]
        x += 1
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'data', 'keypool.json')
    with open(out, 'w') as f:
        json.dump(pool, f, indent=1)

main()
