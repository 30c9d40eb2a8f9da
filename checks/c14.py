"""C14: a crash or I/O error during a command never loses keys."""
import errno
import os
import shutil

from hypothesis import strategies as st

import env
import fastgen
import faults
import gens
import keypool
import tool
from harness import Registry, Violation, require, short
from kz import *

R = Registry()
R.rule = ('Cases are a stored key set (any type, statuses and versions, plain or encrypted) and one '
          'command; each is run once to count its file operations and then once per operation and '
          'kind of fault (crash before it, crash in the middle of it, failure of it alone, failure '
          'from it on, short write, failed read). Non-trivial: the command makes at least two file '
          'operations and the set holds a key.')
R.level = 'fault_enumeration'
R.assumptions = ['A crash ends the process between or within system calls; what the process wrote '
                 'before is on disk (no lost caches).']

KINDS = {'aes': (CRYPT, 'AES', gens.aes_spec()),
         'rsac': (CRYPT, 'RSA_PRIV', gens.rsa_spec((1024,))),
         'hmac': (SIGN, 'HMAC_SHA1', gens.hmac_spec()),
         'rsas': (SIGN, 'RSA_PRIV', gens.rsa_spec((1024,))),
         'dsa': (SIGN, 'DSA_PRIV', gens.dsa_spec())}
WRAP = ref.AesKey(b'k' * 16, b'm' * 32)


@st.composite
def cases(draw):
    k = draw(st.sampled_from(['aes', 'aes', 'hmac', 'hmac', 'rsac', 'rsas', 'dsa']))
    cmd = draw(st.sampled_from(['addkey', 'addkey', 'addkey', 'promote', 'demote', 'revoke',
                                'revoke', 'create', 'pubkey']))
    enc = cmd == 'addkey' and k in ('aes', 'hmac') and draw(st.booleans())
    if cmd == 'pubkey':
        k = draw(st.sampled_from(['rsac', 'rsas', 'dsa']))
    entries = draw(gens.entries(KINDS[k][2], primary=None, min_size=0 if cmd == 'addkey' else 1,
                                max_size=4)) if cmd != 'create' else []
    if entries and cmd in ('revoke', 'promote'):
        e = entries[draw(st.integers(0, len(entries) - 1))]
        e[1] = 'INACTIVE' if cmd == 'revoke' else draw(st.sampled_from(['ACTIVE', 'INACTIVE']))
    elif entries and cmd == 'demote':
        e = entries[draw(st.integers(0, len(entries) - 1))]
        if e[1] == 'INACTIVE':
            e[1] = 'ACTIVE'
    return {'k': k, 'cmd': cmd, 'entries': entries, 'enc': enc, 'n': draw(st.integers(0, 5)),
            'status': draw(st.sampled_from(['primary', 'active', 'inactive'])),
            'err': draw(st.sampled_from([errno.EIO, errno.ENOSPC, errno.EACCES, errno.EROFS,
                                         errno.EDQUOT])),
            'old': draw(st.sampled_from([None, 0, 1])) if cmd == 'pubkey' else None,
            'mode': draw(st.sampled_from([0o600, 0o644, 0o400]))}


def write_set(path, entries, purpose, kind, enc, mode, public=False):
    os.mkdir(path)
    def put(name, text):
        p = os.path.join(path, name)
        with open(p, 'w') as f:
            f.write(text)
        os.chmod(p, mode)
    put('meta', ref.metadata('n', purpose, kind, [(v, s) for v, s, _ in entries], enc))
    for v, s, k in entries:
        text = k.public_json() if public else k.json()
        if enc:
            text = ref.b64e(WRAP.encrypt(text.encode(), bytes((v + i) % 256 for i in range(16))))
        put(str(v), text)


def state(path, kind, enc_ok):
    """(metadata, {version: material}) read by the reference; None without metadata."""
    mp = os.path.join(path, 'meta')
    if not os.path.exists(mp):
        return None
    with open(mp, encoding='latin-1') as f:
        meta = ref.parse_meta(f.read())
    keys = {}
    for v, _, _ in meta[4]:
        with open(os.path.join(path, str(v)), encoding='latin-1') as f:
            text = f.read()
        if meta[3]:
            text = WRAP.decrypt(ref.b64d(text)).decode('latin-1')
        keys[v] = ref.material(ref.parse_key(kind, text))
    return (meta[:4], sorted(meta[4])), keys


@R.prop(cases(), quick=120, thorough=2500, min_shard=12)
def every_fault_point(case, ctx):
    with fastgen.fast():
        _faults(case, ctx)


def _faults(case, ctx):
    purpose, kind, _ = KINDS[case['k']]
    root = os.path.realpath(ctx.scratch())
    entries = [(v, s, keypool.make(sp)) for v, s, sp in case['entries']]
    master = os.path.join(root, 'master')
    loc = os.path.join(root, 'set')
    crypter = os.path.join(root, 'crypter')
    dest = os.path.join(root, 'dest')
    cmd = case['cmd']
    if cmd == 'create':
        os.mkdir(master)
    else:
        write_set(master, entries, purpose, kind, case['enc'] and bool(entries), case['mode'])
    write_set(crypter, [(1, 'PRIMARY', WRAP)], CRYPT, 'AES', False, 0o600)
    model = tool.SetModel('n', purpose, kind)
    model.versions = {v: [s, k] for v, s, k in entries}
    pubkind = tool.PUBLIC.get(kind)
    if cmd in ('promote', 'demote', 'revoke'):
        fit = [v for v in sorted(model.versions) if tool.change(model, cmd, v) is not None]
        if not fit:
            return
        args = [cmd, '--version=%d' % fit[case['n'] % len(fit)]]
    elif cmd == 'addkey':
        args = ['addkey', '--status=' + case['status']]
        if kind == 'RSA_PRIV':
            args.append('--size=1024')
        if case['enc']:
            args.append('--crypter=' + crypter)
    elif cmd == 'create':
        args = ['create', '--purpose=crypt' if purpose == CRYPT else '--purpose=sign', '--name=n']
        if kind == 'RSA_PRIV':
            args.append('--asymmetric=rsa')
        elif kind == 'DSA_PRIV':
            args.append('--asymmetric=dsa')
    else:
        args = ['pubkey', '--destination=' + dest]
    args.append('--location=' + loc)
    target_dir, tkind = (dest, pubkind) if cmd == 'pubkey' else (loc, kind)

    def reset():
        for d in (loc, dest):
            shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(master, loc)
        if case['old'] is None:
            os.mkdir(dest)
        else:       # an older export with fewer keys or other statuses
            old = [(v, 'ACTIVE' if s == 'PRIMARY' else s, k) for v, s, k in entries]
            write_set(dest, old[:1] if case['old'] == 0 else old,
                      ENCRYPT if purpose == CRYPT else VERIFY, pubkind, False, 0o644, public=True)

    def call():
        with fastgen.fast():
            return tool.run(args)

    env_seed = env.Drbg('c14 %r' % case)
    def seeded():
        env.set_urandom(env.Drbg(env_seed.seed).read)
        return call()

    reset()
    before = state(target_dir, tkind, case['enc'])
    r = faults.run(seeded, root, faults.COUNT)
    require(r['kind'] == 'ok', '%s failed: %s', args, r.get('what'))
    after = state(target_dir, tkind, case['enc'])
    after_files = set(os.listdir(target_dir))
    require(after is not None and after != before or cmd == 'pubkey', 'the command did nothing')
    ops, reads, trace = r['ops'], r['reads'], r['trace'].split()
    require(ops >= 1, 'the harness saw no file operation')
    points = [(faults.CRASH_BEFORE, i) for i in range(ops)]
    points += [(faults.CRASH_WITHIN, i) for i in range(ops)]
    points += [(faults.FAIL_ONCE, i) for i in range(ops)]
    points += [(faults.FAIL_ON, i) for i in range(ops)]
    points += [(faults.SHORT, i) for i in range(ops) if 'write' in trace[i]]
    points += [(m, i) for m in (faults.FULL, faults.FULL_WITHIN)
               for i in range(ops) if 'write' in trace[i]]
    points += [(faults.READ_FAIL, i) for i in range(reads)]
    ctx.labels['fault points'] = ctx.labels.get('fault points', 0) + len(points)
    names = ['', 'crash before', 'crash within', 'failure of', 'failure from', 'short', 'read error',
             'disk full from', 'disk full within']
    for mode, i in points:
        reset()
        r = faults.run(seeded, root, mode, i, case['err'])
        where = '%s: %s operation %d of [%s]' % (
            [a for a in args if '=/' not in a], names[mode], i, ' '.join(trace))
        ctx.label(names[mode] + (' ' + trace[i] if mode < 5 else ''))
        if mode in (faults.CRASH_BEFORE, faults.CRASH_WITHIN):
            require(r['crashed'], 'harness: no crash at %s: %s', where, r)
        else:
            require(not r['crashed'] and r['kind'] in ('ok', 'fail'),
                    '%s: neither success nor a Keyczar error: %s', where, r.get('what'))
        try:
            now = state(target_dir, tkind, case['enc'])
        except (OSError, ref.RefError, UnicodeError) as e:
            raise Violation('%s: the stored key set is damaged: %r; files %s' % (
                where, e, sorted(os.listdir(target_dir))))
        if r['crashed'] or r['kind'] == 'fail':
            require(now in (before, after), '%s: the key set is neither the old nor the new one:\n'
                    '%s\nold %s\nnew %s', where, now and now[0], before and before[0], after[0])
        else:
            require(now == after, '%s: reported success, but the set is %s', where, now and now[0])
            require(set(os.listdir(target_dir)) == after_files or mode == faults.FAIL_ONCE
                    or mode == faults.FAIL_ON, '%s: files %s', where, os.listdir(target_dir))
            if cmd == 'revoke':
                require(set(os.listdir(target_dir)) & {str(v) for v in model.versions} ==
                        after_files & {str(v) for v in model.versions},
                        '%s: reported success, but the key file is there', where)
        if now is None:
            continue
        # the library reads it, and the next command works
        rd = readers.FileReader(target_dir)
        if now[0][0][3]:
            rd = readers.EncryptedReader(rd, keyczar.Crypter.Read(crypter))
        gk = keyczar.GenericKeyczar(rd)
        require(sorted(v.version_number for v in gk.versions) == sorted(now[1]),
                '%s: the library reads versions %s', where, gk.versions)
        if cmd != 'pubkey' and i % 3 == case['n'] % 3:
            a = ['addkey', '--location=' + loc] + (['--size=1024'] if kind == 'RSA_PRIV' else [])
            if now[0][0][3]:
                a.append('--crypter=' + crypter)
            k, what = tool.run(a)
            require(k == 'ok', '%s: the next addkey fails: %s', where, what)
            later = state(loc, kind, True)
            require(all(later[1].get(v) == m for v, m in now[1].items()) and
                    len(later[1]) == len(now[1]) + 1, '%s: the next addkey damages the set', where)
    ctx.label(cmd + (' encrypted' if case['enc'] else ''), kind)
    ctx.nontrivial(ops >= 2 and (entries or cmd == 'create'))
