"""C07 ciphertexts, C08 signatures, C12 sessions on a hostile network."""
import random

from . import edges
from . import msgs
from . import refkz
from . import world as W
from .common import (Admin, Scenario, Site, Violation, ASYM, B, CRYPT, ROOT, S,
                     SIGN, brief, common_plan, data, gen_admin, gen_data,
                     gen_kind, gen_size, resolve, seed_of, weighted)
from .scen_admin import CR, KS, PUB, maxdata, setup_crypter

KS2 = ROOT + '/ks2'
ALPHABET = ('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_')


# ----------------------------------------------------------------------------
# what the network does

RAW_FAULTS = ('flip', 'flip', 'flip', 'flips', 'cut', 'cut1', 'cutfront',
              'extend', 'extend1', 'splice', 'chop', 'insert', 'swapblocks',
              'header', 'hash', 'version', 'garbage', 'empty', 'double',
              'nomac', 'zero', 'tail', 'headonly', 'otherhead', 'zeropad', 'tag')
TEXT_FAULTS = ('tflip', 'tcut', 'tcut1', 'textend', 'tjunk', 'tcase', 'tplus',
               'tpad', 'thigh', 'tempty', 'tdel', 'tjunklast', 'space',
               'newline', 'spaces', 'crlf')
HARMLESS = ('space', 'newline', 'spaces', 'crlf')


def gen_fault(rng, text):
  if text and rng.random() < 0.4:
    return {'f': rng.choice(TEXT_FAULTS), 's': seed_of(rng)}
  return {'f': rng.choice(RAW_FAULTS), 's': seed_of(rng)}


def hit_raw(f, raw, others, hashes):
  """Apply a fault to bytes."""
  rng = random.Random(f['s'])
  k = f['f']
  b = bytearray(raw)
  n = len(b)
  if k == 'flip':
    if n:
      # all positions, with extra weight on the ends
      i = rng.choice((rng.randrange(n), rng.randrange(min(n, 6)),
                      n - 1 - rng.randrange(min(n, 22)), rng.randrange(n)))
      b[i] ^= 1 << rng.randrange(8)
  elif k == 'flips':
    for _ in range(rng.randint(2, 5)):
      if n:
        b[rng.randrange(n)] = rng.randrange(256)
  elif k == 'cut':
    del b[rng.randrange(n + 1):]
  elif k == 'cut1':
    del b[max(0, n - rng.choice((1, 2, 4, 5, 16, 20))):]
  elif k == 'cutfront':
    del b[:rng.randint(1, max(1, n))]
  elif k == 'extend':
    b += rng.randbytes(rng.choice((1, 2, 15, 16, 20, 32, 100)))
  elif k == 'extend1':
    b += rng.choice((b'\0', b'\xff', b'\n', b' ', bytes(b[-1:]) or b'x'))
  elif k == 'splice' and others:
    o = others[rng.randrange(len(others))]
    i = rng.randrange(n + 1)
    b = b[:i] + bytearray(o[i if rng.random() < 0.6 else
                            rng.randrange(len(o) + 1):])
  elif k == 'chop':
    i = rng.randrange(max(1, n))
    del b[i:i + rng.choice((1, 2, 4, 16, 32))]
  elif k == 'insert':
    i = rng.randrange(n + 1)
    b[i:i] = rng.randbytes(rng.choice((1, 1, 4, 16)))
  elif k == 'swapblocks' and n >= 58:
    m = (n - 25) // 16
    i, j = rng.randrange(m), rng.randrange(m)
    x, y = 5 + 16 * i, 5 + 16 * j
    b[x:x + 16], b[y:y + 16] = b[y:y + 16], b[x:x + 16]
  elif k == 'header':
    b[:5] = rng.randbytes(5)
  elif k == 'hash' and hashes:
    b[1:5] = hashes[rng.randrange(len(hashes))]
  elif k == 'version':
    b[:1] = bytes([rng.choice((1, 2, 127, 128, 255))])
  elif k == 'garbage':
    b = bytearray(rng.randbytes(rng.choice((0, 1, 4, 5, 6, 20, 40, 41, 57, 80,
                                            200))))
  elif k == 'empty':
    b = bytearray()
  elif k == 'double':
    b = b + b
  elif k == 'nomac':
    b = b[:-20] + bytes(20)
  elif k == 'zero':
    i = rng.randrange(max(1, n))
    b[i:] = bytes(n - i)
  elif k == 'tail' and others:
    o = others[rng.randrange(len(others))]
    t = rng.choice((16, 20, 25, 36, 46))
    b = b[:-t] + bytearray(o[-t:])
  elif k == 'headonly':
    b = b[:rng.randint(0, 9)]
  elif k == 'otherhead' and others:
    o = others[rng.randrange(len(others))]
    t = rng.choice((5, 9, 21, 37))
    b = bytearray(o[:t]) + b[t:]
  elif k == 'tag':
    at = [i for i in range(5, n) if b[i] in (2, 0x30)] or [0]
    if n:
      b[rng.choice(at[:3] + at[-3:])] = rng.choice(
          (0, 1, 3, 4, 5, 6, 9, 10, 12, 0x1f, 0x22, 0x24, 0x30, 0x31, 0x80))
  elif k == 'zeropad':
    b[5:5] = bytes(rng.randint(1, 4))
  return bytes(b)


def hit_text(f, t):
  """Apply a fault to Base64 text."""
  rng = random.Random(f['s'])
  k = f['f']
  n = len(t)
  i = rng.randrange(n) if n else 0
  if k == 'tflip' and n:
    i = rng.choice((i, n - 1))
    return t[:i] + rng.choice(ALPHABET) + t[i + 1:]
  if k == 'tcut':
    return t[:rng.randrange(n + 1)]
  if k == 'tcut1':
    return t[:max(0, n - rng.randint(1, 4))]
  if k == 'textend':
    return t + ''.join(rng.choice(ALPHABET) for _ in range(rng.randint(1, 9)))
  if k == 'tjunk' and n:
    return t[:i] + rng.choice('!@#$%^&*().,;:\t\x00') + t[i + rng.randint(0, 1):]
  if k == 'tjunklast':
    return t + rng.choice(('!', '.', '\t', '=', '==', '===', 'A', '-'))
  if k == 'tcase' and n:
    return t[:i] + t[i].swapcase() + t[i + 1:]
  if k == 'tplus':
    return t.replace('-', '+').replace('_', '/')
  if k == 'tpad':
    return t + '=' * (-n % 4)
  if k == 'thigh' and n:
    return t[:i] + chr(rng.randrange(128, 256)) + t[i + 1:]
  if k == 'tempty':
    return ''
  if k == 'tdel' and n:
    return t[:i] + t[i + 1:]
  if k == 'space':
    return t[:i] + ' ' + t[i:]
  if k == 'spaces':
    return ' ' + ' '.join(t[j:j + 5] for j in range(0, n, 5)) + '  '
  if k == 'newline':
    return t + '\n'
  if k == 'crlf':
    w = rng.choice((4, 7, 64, 76))
    return '\r\n'.join(t[j:j + w] for j in range(0, n, w)) + '\r\n'
  return t


def hit(f, how, msg, others, hashes):
  """msg is text when how ends with 64; others are raw messages."""
  if how.endswith('64'):
    if f['f'] in TEXT_FAULTS:
      return hit_text(f, msg)
    try:
      raw = refkz.b64d(msg)
    except refkz.RefError:     # already beyond decoding
      return msg
    return refkz.b64e(hit_raw(f, raw, others, hashes))
  return S(hit_raw(f, B(msg), others, hashes))


def strict(how, msg):
  """The bytes a message stands for, or None when it is not well-formed."""
  if not how.endswith('64'):
    return B(msg)
  t = ''.join(msg.splitlines()).replace(' ', '')
  if any(c not in ALPHABET for c in t) or len(t) % 4 == 1:
    return None
  return refkz.b64d(t)


def undamaged(how, got, sent):
  if got == sent:
    return True
  return how.endswith('64') and (
      ''.join(got.splitlines()).replace(' ', '') == sent)


# ----------------------------------------------------------------------------

class Net(Scenario):
  """Two keysets, long-lived and fresh receivers, a hostile network."""

  def setup(self, site, plan, kind, cr):
    out = []
    for loc, ops in ((KS, plan['setup']), (KS2, plan['setup2'])):
      a = Admin(site, kind, loc, cr if loc == KS else None)
      a.create()
      for op in ops:
        self.admin(a, op)
      out.append(a)
    return out

  def admin(self, a, op):
    rop = resolve(op, a.must().statuses())
    if op['op'] != 'addkey' and not rop['legal']:
      return False
    o, e = a.run(rop, op['seed'])
    if o != 'ok':
      raise Violation('admin-failed', '%s: %s %r' % (op['op'], o, e))
    return True

  def gen_setup(self, rng, kind, n):
    return [{'op': 'addkey', 'status': weighted(rng, [(3, 'PRIMARY'),
                                                      (1, 'ACTIVE')])
             if i else 'PRIMARY', 'size': gen_size(rng, kind),
             'seed': seed_of(rng), 'pick': 0} for i in range(n)]


class Ciphertexts(Net):
  id = 'C07'
  must_reach = ('clean', 'clean_again', 'refused', 'wrong_keyset', 'respaced',
                'revoked_version', 'stale_receiver', 'stale_unknown_version')
  rule = ('a run is a seeded history of encryptions, rotations and deliveries '
          'in which the network drops, duplicates, delays, damages, splices '
          'and misdelivers ciphertexts; non-trivial when a damaged or '
          'misdelivered ciphertext reached a receiver')
  state_measure = '(kind, encoding, fault, outcome class)'
  quick_runs = 5500

  def gen(self, rng, tier, index):
    kind = weighted(rng, [(5, 'aes'), (2, 'rsa')])
    p = common_plan(rng)
    p.update({'kind': kind, 'crypted': rng.random() < 0.1,
              'setup': self.gen_setup(rng, kind, rng.randint(1, 3)),
              'setup2': self.gen_setup(rng, kind, 1)})
    ops = []
    hows = ('b64', 'raw', 'stream64', 'streamraw') if kind == 'aes' else (
        'b64', 'raw')
    for _ in range(rng.randint(6, 30)):
      r = rng.random()
      if r < 0.3 or not ops:
        op = {'op': 'send', 'seed': seed_of(rng), 'how': rng.choice(hows),
              'from': weighted(rng, [(5, 0), (1, 1)]),
              'data': gen_data(rng, 80 if kind == 'rsa' else
                               rng.choice((40, 300, 5000))),
              'edge': edges.gen(rng, kind, 0.12)}
      elif r < 0.9:
        op = {'op': 'deliver', 'pick': rng.randrange(1000),
              'to': weighted(rng, [(6, 'fresh'), (3, 'stale'), (1, 'ks2')]),
              'delay': rng.randrange(100),
              'faults': [] if rng.random() < 0.2 else
              [gen_fault(rng, True) for _ in range(weighted(
                  rng, [(8, 1), (1, 2)]))],
              'copies': rng.choice((1, 1, 1, 2, 0))}
        if kind == 'rsa' and rng.random() < 0.15:
          op['faults'] = [{'f': 'oaep', 's': seed_of(rng)}]
      elif r < 0.97:
        op = gen_admin(rng, kind)
      else:
        op = {'op': 'reopen'}
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    kind = plan['kind']
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    admins = self.setup(site, plan, kind, cr)
    sent = []                # (how, msg, raw, text, key, keyset no)
    genuine = {}             # raw -> (text, key ident)
    numbers = {}             # (key hash, ciphertext number) -> text, for RSA
    stale = None

    def opened(loc, c):
      ks = site.must_store(loc, admins[0].ref_crypter() if c else None)
      p = site.proc('receiver')
      with site.on(p) as K:
        out, e, obj = site.attempt(K, lambda: site.open(K, 'Crypter', loc, c))
      if out != 'ok':
        raise Violation('cannot-open', '%s: %r' % (brief(ks), e))
      return p, obj, {k.ident(): k for k in ks.keys.values()}

    stale = opened(KS, cr)
    for op in plan['ops']:
      ctx.steps += 1
      o = op['op']
      if o == 'send':
        a = admins[op['from']]
        ks = a.must()
        if not [1 for s in ks.statuses().values() if s == 'PRIMARY']:
          continue
        text = data(op['data'])
        site.w.entropy.reseed(op['seed'])
        p = site.proc('sender')
        key = ks.primary()
        if op['edge']:
          ctx.probe('edge_' + op['edge'])
        with site.on(p) as K, edges.steer(site, op['edge'], key, text,
                                          op['seed']):
          out, e, msg = site.attempt(K, lambda: msgs.produce(
              site.open(K, 'Encrypter', a.loc, a.crypter_loc), op['how'], text))
        if out != 'ok':
          raise Violation('cannot-encrypt', '%s %r' % (out, e))
        raw = msgs.raw_of(op['how'], msg)
        sent.append((op['how'], msg, raw, text, key, op['from']))
        genuine[raw] = (text, key.ident())
        if kind == 'rsa':
          numbers[(raw[1:5], refkz.b2i(raw[5:]))] = (text, key)
      elif o == 'deliver':
        if not sent:
          continue
        how, msg, raw, text, key, frm = sent[op['pick'] % len(sent)]
        got = msg
        ks = admins[0].must()
        hashes = [k.hash for k in ks.keys.values()]
        for f in op['faults']:
          if f['f'] == 'oaep':
            b = self.bad_oaep(f, key.pub, B(text))
            got = refkz.b64e(b) if how.endswith('64') else S(b)
          else:
            got = hit(f, how, got, [s[2] for s in sent], hashes)
          ctx.fault('net_' + f['f'])
        if op['copies'] == 0:
          ctx.fault('net_loss')
          continue
        if op['copies'] > 1:
          ctx.fault('net_duplicate')
        if op['to'] == 'stale':
          rcv = stale
          ctx.probe('stale_receiver')
          if key.ident() not in stale[2] and not frm:
            ctx.probe('stale_unknown_version')
        elif op['to'] == 'ks2':
          rcv = opened(KS2, None)
        else:
          rcv = opened(KS, cr)
        for i in range(op['copies']):
          self.deliver(site, ctx, kind, how, msg, got, raw, text, rcv, genuine,
                       numbers, op, i, key)
      elif o == 'reopen':
        stale = opened(KS, cr)
      else:
        self.admin(admins[0], op)

  def deliver(self, site, ctx, kind, how, msg, got, raw, text, rcv, genuine,
              numbers, op, i, key):
    p, obj, idents = rcv
    with site.on(p) as K:
      out, e, v = site.attempt(K, lambda: msgs.consume(obj, how, got))
    fs = [f['f'] for f in op['faults']]
    ctx.event('deliver', how, fs, op['to'], out, len(got))
    ctx.state(kind, how, fs[:1], op['to'], out)
    if undamaged(how, got, msg) and key.ident() in idents:
      if got != msg:
        ctx.probe('respaced')
      if out != 'ok':
        raise Violation('lost', 'an undamaged %s ciphertext of %d characters '
                        'was refused: %r' % (how, len(got), e))
      if v != text:
        raise Violation('wrong-plaintext', 'an undamaged ciphertext gave %d '
                        'characters instead of %d' % (len(v or ''), len(text)))
      ctx.probe('clean_again' if i else 'clean')
      return
    ctx.nontrivial = True
    if undamaged(how, got, msg):
      ctx.probe('wrong_keyset' if op['to'] == 'ks2' else 'revoked_version')
    if out == 'ok':
      if not isinstance(v, str):
        raise Violation('forged', 'decrypting returned %r' % type(v))
      if not self.acceptable(kind, how, got, v, idents, genuine, numbers):
        raise Violation('forged', '%s of a %d-character ciphertext (%s) gave '
                        '%d characters that nobody encrypted' %
                        (op['to'], len(got), fs, len(v)))
      ctx.probe('harmless_damage')
    elif out != 'error':
      raise Violation('wrong-error', 'decrypting a damaged ciphertext (%s, %s) '
                      'raised %r' % (how, fs, e))
    else:
      ctx.probe('refused')

  def bad_oaep(self, f, pub, text):
    """What somebody with the public key can send: not a proper encryption."""
    rng = random.Random(f['s'])
    label = refkz.sha1(b'')
    room = pub.k - 42 - len(text)
    db = label + bytes(room) + b'\1' + text
    first = b'\0'
    how = rng.choice(('label', 'labelbit', 'first', 'zeros', 'nodelim', 'ff',
                      'delim2', 'garbage', 'labelonly'))
    if how == 'label':
      db = refkz.sha1(b'x') + db[20:]
    elif how == 'labelbit':
      i = rng.randrange(20)
      db = db[:i] + bytes([db[i] ^ (1 << rng.randrange(8))]) + db[i + 1:]
    elif how == 'first':
      first = b'\1'
    elif how in ('zeros', 'nodelim', 'labelonly'):
      db = label + bytes(pub.k - 41)
      if how == 'nodelim':
        db = db[:-1] + b'\2'
    elif how == 'ff':
      db = label + b'\xff' * (pub.k - 41)
    elif how == 'delim2':
      db = label + bytes(room) + b'\2' + text
    else:
      db = rng.randbytes(pub.k - 21)
    b = pub.encrypt_block(first, db, rng.randbytes)
    if refkz.b2i(first + b'\xff' * (pub.k - 1)) > pub.n and how == 'first':
      # a first byte that the modulus may not hold: some other number then
      b = b[:5] + bytes(pub.k - 1) + b'\1'
    return b

  def acceptable(self, kind, how, got, v, idents, genuine, numbers):
    raw = strict(how, got)
    if raw is None:
      # not proper Base64: a decoder may be lenient, but not inventive
      return any(t == v and i in idents for t, i in genuine.values())
    if raw in genuine:
      return genuine[raw][0] == v and genuine[raw][1] in idents
    if kind == 'rsa' and raw[:1] == b'\0':
      for k in idents.values():
        if k.hash == raw[1:5]:
          g = numbers.get((k.hash, refkz.b2i(raw[5:]) % k.pub.n))
          return g is not None and g[0] == v
    return False


class Signatures(Net):
  id = 'C08'
  must_reach = ('accepted', 'accepted_again', 'rejected', 'error',
                'accepted_by_public', 'wrong_keyset', 'swapped_signature',
                'swapped_nonce', 'swapped_data', 'cross_operation',
                'stale_receiver', 'respaced')
  rule = ('a run is a seeded history of signing, rotation and deliveries in '
          'which the network damages data, signatures and nonces, swaps them '
          'between messages, operations and keysets, duplicates and delays '
          'them; non-trivial when something not signed reached a verifier')
  state_measure = '(kind, operation, fault, receiver, outcome)'
  quick_runs = 4500

  def gen(self, rng, tier, index):
    kind = weighted(rng, [(5, 'hmac'), (3, 'rsasign'), (4, 'dsa')])
    p = common_plan(rng)
    p.update({'kind': kind, 'crypted': rng.random() < 0.1,
              'setup': self.gen_setup(rng, kind, rng.randint(1, 3)),
              'setup2': self.gen_setup(rng, kind, 1)})
    ops = []
    for _ in range(rng.randint(6, 30)):
      r = rng.random()
      if r < 0.32 or not ops:
        op = {'op': 'send', 'seed': seed_of(rng),
              'how': rng.choice(msgs.SIGN_HOWS),
              'from': weighted(rng, [(5, 0), (1, 1)]),
              'data': gen_data(rng, rng.choice((3, 60, 400))),
              'nonce': gen_data(rng, rng.choice((0, 4, 20))),
              'edge': edges.gen(rng, kind, 0.02)}
      elif r < 0.9:
        nf = rng.random()
        op = {'op': 'deliver', 'pick': rng.randrange(1000),
              'to': weighted(rng, [(5, 'fresh'), (2, 'stale'), (1, 'signer'),
                                   (3, 'public'), (1, 'ks2')]),
              'other': rng.randrange(1000), 'copies': rng.choice((1, 1, 2)),
              'faults': [] if nf < 0.25 else [gen_fault(rng, True)],
              'swap': rng.choice(('none', 'none', 'none', 'sig', 'nonce',
                                  'data', 'how', 'datanul', 'nonceflip',
                                  'dataflip', 'cross', 'nononce',
                                  'movenonce', 'nonceprefix', 'craft'))
              if nf < 0.7 else 'none', 's': seed_of(rng)}
      elif r < 0.97:
        op = gen_admin(rng, kind)
      else:
        op = {'op': 'reopen'}
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    kind = plan['kind']
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    admins = self.setup(site, plan, kind, cr)
    site.mkdir(PUB)
    sent = []
    signed = {}              # key id -> {signed bytes: [signatures]}

    def pubid(k):
      return getattr(k, 'pub', k).ident()

    def opened(role, loc, c):
      if loc == PUB:
        out, e = admins[0].run({'op': 'pubkey', 'dest': PUB}, 1)
        if out != 'ok':
          raise Violation('admin-failed', 'pubkey: %r' % e)
      ks = site.must_store(loc, admins[0].ref_crypter() if c else None)
      p = site.proc('receiver')
      with site.on(p) as K:
        out, e, obj = site.attempt(K, lambda: site.open(K, role, loc, c))
      if out != 'ok':
        raise Violation('cannot-open', '%s: %r' % (brief(ks), e))
      return p, obj, {pubid(k): k for k in ks.keys.values()}

    def reopen():
      return {r: opened(r, KS, cr) for r in ('Verifier', 'UnversionedVerifier')}

    stale = reopen()
    for op in plan['ops']:
      ctx.steps += 1
      o = op['op']
      if o == 'send':
        a = admins[op['from']]
        ks = a.must()
        if not [1 for s in ks.statuses().values() if s == 'PRIMARY']:
          continue
        base, nonce = data(op['data']), data(op['nonce'])
        how, edge = op['how'], op['edge']
        p = site.proc('sender')
        key = ks.primary()
        if edge:
          ctx.probe('edge_' + edge)
        with site.on(p) as K:
          out, e, obj = site.attempt(K, lambda: site.open(
              K, msgs.role_for(how, kind), a.loc, a.crypter_loc))
          for i in range(edges.tries(edge, key)):
            text = base + ('%d' % i if edge == 'sig0' and i else '')
            site.w.entropy.reseed((op['seed'], i) if i else op['seed'])
            if out == 'ok':
              out, e, msg = site.attempt(K, lambda: msgs.produce(
                  obj, how, text, nonce))
            if out != 'ok':
              raise Violation('cannot-sign', '%s %r' % (out, e))
            if not edge or self.on_edge(edge, how, msg, key, text, nonce):
              break
        m = {'how': how, 'msg': msg, 'text': text, 'nonce': nonce,
             'raw': msgs.raw_of(how, msg), 'key': key, 'from': op['from']}
        sent.append(m)
        s, sig = self.parts(how, m['raw'], text, nonce)
        signed.setdefault(pubid(key), {}).setdefault(s, []).append(sig)
      elif o == 'deliver':
        if not sent:
          continue
        m = sent[op['pick'] % len(sent)]
        n = sent[op['other'] % len(sent)]
        d = self.delivery(op, m, n, sent, admins[0].must(), ctx)
        if d is None:
          continue
        role = msgs.role_for(d['how'], kind, False)
        to = op['to']
        if to == 'public' and kind not in ASYM:
          to = 'fresh'
        if to == 'signer':
          role = msgs.role_for(d['how'], kind, True)
        if to == 'stale':
          rcv = stale[role]
          ctx.probe('stale_receiver')
        elif to == 'ks2':
          rcv = opened(role, KS2, None)
        elif to == 'public':
          rcv = opened(role, PUB, None)
        else:
          rcv = opened(role, KS, cr)
        for i in range(op['copies']):
          self.deliver(site, ctx, kind, m, d, rcv, signed, op, to, i)
      elif o == 'reopen':
        stale = reopen()
      else:
        self.admin(admins[0], op)

  def on_edge(self, edge, how, msg, key, text, nonce):
    sig = self.parts(how, msgs.raw_of(how, msg), text, nonce)[1]
    return edges.hit(edge, sig, key) or (
        edge == 'sig0' and len(sig) != getattr(key, 'pub', key).k)

  def parts(self, how, raw, text, nonce):
    """(signed byte string, signature)"""
    if how.startswith('unv'):
      return B(text), raw
    if how.startswith('det'):
      return B(text) + b'\0', raw[5:]
    return (B(text) + refkz.pack(B(nonce)) + b'\0', raw[9 + len(text):])

  def delivery(self, op, m, n, sent, ks, ctx):
    """What arrives: how, msg, data, nonce."""
    rng = random.Random(op['s'])
    d = {'how': m['how'], 'msg': m['msg'], 'text': m['text'],
         'nonce': m['nonce']}
    sw = op['swap']
    fam = m['how'][:3]
    if sw == 'sig':
      same = [x for x in sent if x['how'] == m['how']]
      d['msg'] = same[op['other'] % len(same)]['msg']
      ctx.probe('swapped_signature')
    elif sw == 'nonce':
      d['nonce'] = n['nonce']
      ctx.probe('swapped_nonce')
    elif sw == 'data':
      d['text'] = n['text']
      ctx.probe('swapped_data')
    elif sw == 'datanul':
      d['text'] = d['text'] + '\0' if rng.random() < 0.5 else d['text'][:-1]
    elif sw == 'dataflip' and d['text']:
      i = rng.randrange(len(d['text']))
      d['text'] = (d['text'][:i] + chr(ord(d['text'][i]) ^ (1 << rng.randrange(8)))
                   + d['text'][i + 1:])
    elif sw == 'nonceflip' and d['nonce']:
      i = rng.randrange(len(d['nonce']))
      d['nonce'] = (d['nonce'][:i] + chr(ord(d['nonce'][i]) ^
                                         (1 << rng.randrange(8))) +
                    d['nonce'][i + 1:])
    elif sw == 'nononce':
      d['nonce'] = ''
    elif sw == 'nonceprefix':
      d['nonce'] = d['nonce'][:-1] if rng.random() < 0.5 else d['nonce'] + 'x'
    elif sw == 'how':
      # the same bytes offered to another operation
      enc = '64' if m['how'].endswith('64') else 'raw'
      d['how'] = rng.choice(('det', 'att', 'unv')) + enc
      ctx.probe('cross_operation')
    elif sw == 'cross':
      # the signature itself, repackaged for another operation
      sig = self.parts(m['how'], m['raw'], m['text'], m['nonce'])[1]
      head = b'\0' + m['key'].hash
      to = rng.choice(('det', 'att', 'unv'))
      if to == fam:
        return None
      raw = {'det': head + sig, 'unv': sig,
             'att': head + refkz.pack(B(d['text'])) + sig}[to]
      enc = '64' if m['how'].endswith('64') else 'raw'
      d['how'] = to + enc
      d['msg'] = refkz.b64e(raw) if enc == '64' else S(raw)
      ctx.probe('cross_operation')
    elif sw == 'movenonce' and fam == 'att':
      # move the boundary between data and nonce
      whole = B(m['text']) + refkz.pack(B(m['nonce']))
      sig = self.parts(m['how'], m['raw'], m['text'], m['nonce'])[1]
      i = rng.randrange(len(whole) + 1)
      raw = b'\0' + m['key'].hash + refkz.pack(whole[:i]) + sig
      d['nonce'] = S(whole[i + 4:]) if rng.random() < 0.5 else m['nonce']
      d['msg'] = (refkz.b64e(raw) if m['how'].endswith('64') else S(raw))
    elif sw == 'craft':
      sig = self.parts(m['how'], m['raw'], m['text'], m['nonce'])[1]
      new = self.crafted(rng, m['key'], sig, self.parts(
          m['how'], m['raw'], m['text'], m['nonce'])[0])
      raw = m['raw'][:len(m['raw']) - len(sig)] + new
      d['msg'] = refkz.b64e(raw) if m['how'].endswith('64') else S(raw)
    hashes = [k.hash for k in ks.keys.values()]
    for f in op['faults']:
      d['msg'] = hit(f, d['how'], d['msg'], [x['raw'] for x in sent], hashes)
      ctx.fault('net_' + f['f'])
    if sw != 'none':
      ctx.fault('swap_' + sw)
    return d

  def bad_emsa(self, rng, key, data):
    h = refkz.sha1(data)
    info = bytes.fromhex('3021300906052b0e03021a05000414')
    k = key.k
    def full(t):
      return b'\0\1' + b'\xff' * (k - 3 - len(t)) + b'\0' + t
    return rng.choice((
        bytes(k - 20) + h,                                  # the hash alone
        full(h),                                            # no algorithm
        full(bytes.fromhex('301f300706052b0e03021a0414') + h),
        full(bytes.fromhex('3020300c06082a864886f70d020505000410') + h[:16]),
        full(bytes.fromhex('3021300906052b0e03021a05000415') + h),
        b'\0\1' + b'\xff' * 8 + b'\0' + info + h +
        bytes(k - 11 - len(info) - 20),                     # text after it
        b'\0\2' + full(info + h)[2:],                       # another block type
        b'\0\1' + bytes(k - 3 - 35) + b'\0' + info + h,     # zero padding
        b'\0\1' + b'\xff' * (k - 4 - 35) + b'\xfe\0' + info + h,
        full(info + refkz.sha1(data[:-1])),
        full(info + h[:-1] + bytes([h[-1] ^ 1])),
        bytes(k - 35) + info + h))

  def crafted(self, rng, key, sig, signed):
    """A signature with special values."""
    priv = key
    key = getattr(key, 'pub', key)
    if key.type == 'HMAC_SHA1':
      return rng.choice((b'', bytes(20), sig[:19], sig[:1], sig + b'\0',
                         sig * 2, sig[::-1], sig[:10]))
    if key.type == 'RSA_PUB':
      n, k = key.n, key.k
      if priv is not key and rng.random() < 0.6:
        # not a padded hash as it should be
        em = self.bad_emsa(rng, key, signed)
        return pow(refkz.b2i(em), priv.d, n).to_bytes(k, 'big')
      v = rng.choice((0, 1, n - 1, n - refkz.b2i(sig), n, n + 1))
      return v.to_bytes(k, 'big')
    q = key.q
    r, s = refkz.parse_dsa(sig)
    if rng.random() < 0.2:
      # elements beyond r and s, or not integers
      more = rng.choice((b'\x02\x01\x05', b'\x05\x00', sig[2:], b'\x04\x01\0'))
      if rng.random() < 0.5:
        return b'\x30' + bytes([len(sig) - 2 + len(more)]) + sig[2:] + more
      return sig[:2] + bytes([rng.choice((3, 4, 5, 10))]) + sig[3:]
    r, s = rng.choice(((0, 0), (0, s), (r, 0), (1, 1), (r, q - s), (r, s + q),
                       (r + q, s), (s, r), (r, q), (q, s), (1, 0), (r, r)))
    return refkz.dsa_der(r, s)

  def deliver(self, site, ctx, kind, m, d, rcv, signed, op, to, i):
    p, obj, keys = rcv
    with site.on(p) as K:
      out, e, v = site.attempt(K, lambda: msgs.consume(
          obj, d['how'], d['msg'], d['text'], d['nonce']))
    fs = [f['f'] for f in op['faults']] + [op['swap']]
    ctx.event('deliver', d['how'], fs, to, out, v if out != 'ok' or not
              isinstance(v, str) else len(v))
    att = d['how'].startswith('att')
    accepted = out == 'ok' and (v is not None if att else bool(v))
    ctx.state(kind, d['how'], fs, to, out, accepted)
    pubid = getattr(m['key'], 'pub', m['key']).ident()
    clean = (d['how'] == m['how'] and undamaged(d['how'], d['msg'], m['msg'])
             and (att or d['text'] == m['text']) and
             (not att or d['nonce'] == m['nonce']) and pubid in keys)
    if clean:
      if not accepted or (att and v != m['text']) or (not att and v is not True):
        raise Violation('refused-genuine', '%s of %d characters by %s: %s %r' %
                        (d['how'], len(m['text']), to, out, e or v))
      if d['msg'] != m['msg']:
        ctx.probe('respaced')
      ctx.probe('accepted_again' if i else 'accepted')
      if to == 'public':
        ctx.probe('accepted_by_public')
      return
    ctx.nontrivial = True
    if pubid not in keys:
      ctx.probe('wrong_keyset')
    if out == 'other':
      raise Violation('wrong-error', 'verifying (%s, %s) raised %r' %
                      (d['how'], fs, e))
    if out == 'error':
      ctx.probe('error')
      return
    if not accepted:
      if (v is not None if att else v is not False):
        raise Violation('wrong-result', 'refusal is %r' % (v,))
      ctx.probe('rejected')
      return
    why = self.unfounded(kind, d, v, keys, signed)
    if why:
      raise Violation('forged', '%s accepted by %s (%s): %s' %
                      (d['how'], to, fs, why))
    ctx.probe('founded_acceptance')

  def unfounded(self, kind, d, v, keys, signed):
    """None when acceptance rests on something that was signed."""
    how = d['how']
    raw = strict(how, d['msg'])
    att = how.startswith('att')
    text = v if att else d['text']
    if not isinstance(text, str):
      return 'returned %r' % type(text)
    if how.startswith('unv'):
      s, sig = B(text), raw
      cands = list(keys)
    else:
      s = B(text) + (refkz.pack(B(d['nonce'])) if att else b'') + b'\0'
      cands = list(keys)
      if raw is not None:
        if raw[:1] != b'\0':
          return 'wrong format version'
        cands = [i for i, k in keys.items() if k.hash == raw[1:5]]
        if att:
          n = refkz.b2i(raw[5:9])
          if raw[9:9 + n] != B(text):
            return 'returned data is not the data in the message'
          sig = raw[9 + n:]
        else:
          sig = raw[5:]
    for i in cands:
      sigs = signed.get(i, {}).get(s)
      if not sigs:
        continue
      if raw is None:
        return None            # lenient Base64; the content was signed
      if kind == 'hmac':
        if sig in sigs:
          return None
      elif kind == 'rsasign':
        n = keys[i]
        n = getattr(n, 'pub', n).n
        if any(refkz.b2i(sig) % n == refkz.b2i(x) % n for x in sigs):
          return None
      else:
        try:
          rs = refkz.parse_dsa(sig)
        except (refkz.RefError, IndexError):
          if any(len(sig) < 128 and sig[:1] == b'\x30' and
                 sig[1:2] == bytes([len(sig) - 2]) and
                 sig[2:].startswith(x[2:]) for x in sigs):
            return 'a signature of more than two numbers'
          return None          # unusual encoding, the content was signed
        if any(refkz.parse_dsa(x) == rs for x in sigs):
          return None
      return 'not a signature that was made for it'
    return 'nobody signed this'


SG, SG2 = ROOT + '/sg', ROOT + '/sg2'


class Sessions(Net):
  id = 'C12'
  must_reach = ('clean', 'clean_again', 'after_rotation', 'other_session',
                'other_signer', 'other_keyset', 'damaged_message',
                'damaged_material', 'wrong_form', 'signed_none',
                'revoked_material', 'public_verifier', 'shared_process',
                'churn', 'resigned', 'held_receiver')
  rule = ('a run is a seeded interleaving of several plain and signed sessions '
          'with rotation of the keysets under them and a network that damages, '
          'duplicates, reorders and misdelivers messages and session material; '
          'non-trivial when something damaged or misdelivered was offered')
  state_measure = ('(encryption kind, signature kind, signed or plain, fault, '
                   'relation of message to session, outcome)')
  quick_runs = 4500

  def gen(self, rng, tier, index):
    ek = weighted(rng, [(3, 'aes'), (2, 'rsa')])
    sk = weighted(rng, [(3, 'hmac'), (1, 'rsasign'), (2, 'dsa')])
    p = common_plan(rng)
    p.update({'ek': ek, 'sk': sk,
              'setup': self.gen_setup(rng, ek, rng.randint(1, 2)),
              'setup2': self.gen_setup(rng, ek, 1),
              'ssetup': self.gen_setup(rng, sk, rng.randint(1, 2)),
              'ssetup2': self.gen_setup(rng, sk, 1)})
    for op in p['setup'] + p['setup2']:
      if ek == 'rsa':
        op['size'] = 2048
    ops = [{'op': 'session', 'signed': rng.random() < 0.6, 'seed': seed_of(rng),
            'enc': 0, 'sig': 0},
           {'op': 'accept', 'pick': 0, 'enc': 0, 'sig': 0, 'faults': [],
            'form': 0, 'pub': False}]
    for _ in range(rng.randint(6, 30)):
      r = rng.random()
      if r < 0.1:
        op = {'op': 'session', 'signed': rng.random() < 0.6,
              'seed': seed_of(rng), 'enc': weighted(rng, [(6, 0), (1, 1)]),
              'sig': weighted(rng, [(6, 0), (1, 1)]),
              'edge': rng.random() < 0.1, 'shared': rng.random() < 0.5}
      elif r < 0.32:
        op = {'op': 'send', 'pick': rng.randrange(1000), 'seed': seed_of(rng),
              'raw': rng.random() < 0.3,
              'data': gen_data(rng, rng.choice((20, 300)))}
      elif r < 0.47:
        op = {'op': 'accept', 'pick': rng.randrange(1000),
              'enc': weighted(rng, [(7, 0), (1, 1)]),
              'sig': weighted(rng, [(7, 0), (1, 1)]),
              'pub': rng.random() < 0.3, 'form': rng.random() < 0.08,
              'shared': rng.random() < 0.5, 'held': rng.random() < 0.4,
              'faults': [gen_fault(rng, True)] if rng.random() < 0.3 else []}
      elif r < 0.88:
        op = {'op': 'deliver', 'pick': rng.randrange(1000),
              'to': rng.randrange(1000), 'own': rng.random() < 0.75,
              'copies': rng.choice((1, 1, 2)),
              'faults': [gen_fault(rng, True)] if rng.random() < 0.4 else []}
        if rng.random() < 0.15:
          # signed by the right party, but not for this session
          op['own'], op['faults'] = True, []
          op['resign'] = [rng.choice(('none', 'absent', 'prefix', 'longer', 'other',
                                      'otherinner', 'bit')), seed_of(rng)]
      elif r < 0.89:
        op = {'op': 'retire', 'on': rng.choice(('enc', 'sig')),
              'pick': rng.randrange(1000), 'seed': seed_of(rng)}
      elif r < 0.91:
        op = {'op': 'churn', 'n': rng.choice((3, 6, 12)),
              'signed': rng.random() < 0.5, 'seed': seed_of(rng)}
      else:
        op = gen_admin(rng, sk, {'addkey': 3, 'promote': 3, 'demote': 5,
                                 'revoke': 5})
        op['on'] = rng.choice(('enc', 'sig'))
        if op.get('size') and op['on'] == 'enc':
          op['size'] = 2048 if ek == 'rsa' else None
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    ek, sk = plan['ek'], plan['sk']
    encs = self.setup(site, plan, ek, None)
    sigs = []
    for loc, ops in ((SG, plan['ssetup']), (SG2, plan['ssetup2'])):
      a = Admin(site, sk, loc)
      a.create()
      for op in ops:
        self.admin(a, op)
      sigs.append(a)
    site.mkdir(PUB)
    sessions, sent, takers = [], [], []
    rotations = 0
    shared = {}
    self.kept = {}

    def process(name, op):
      if not op.get('shared'):
        return site.proc(name)
      if name in shared:
        ctx.probe('shared_process')
      else:
        shared[name] = site.proc(name)
      return shared[name]
    self.process = process
    for op in plan['ops']:
      ctx.steps += 1
      o = op['op']
      if o == 'session':
        e, s = encs[op['enc']], sigs[op['sig']]
        eks, sks = e.must(), s.must()
        if 'PRIMARY' not in eks.statuses().values() or (
            op['signed'] and 'PRIMARY' not in sks.statuses().values()):
          continue
        p = process('sender', op)
        site.w.entropy.reseed(op['seed'])
        if op.get('edge') and not op['signed'] and ek == 'rsa':
          self.steer(site, eks.primary(), op['seed'])
        with site.on(p) as K:
          def go():
            enc = K.keyczar.Encrypter.Read(e.loc)
            if op['signed']:
              return K.keyczar.SignedSessionEncrypter(
                  enc, K.keyczar.Signer.Read(s.loc))
            return K.keyczar.SessionEncrypter(enc)
          out, ex, obj = site.attempt(K, go)
          site.w.entropy.force = {}
          if out != 'ok':
            raise Violation('cannot-start', 'session: %s %r' % (out, ex))
          mat = obj.session_material
        sessions.append({'p': p, 'obj': obj, 'mat': mat, 'signed': op['signed'],
                         'enc': op['enc'], 'sig': op['sig'],
                         'raw': refkz.b64d(mat), 'ekey': eks.primary(),
                         'skey': sks.primary() if op['signed'] else None,
                         'rot': rotations, 'eks': eks,
                         'nonce': self.nonce(eks, mat, op['signed'])})
      elif o == 'send':
        if not sessions:
          continue
        i = op['pick'] % len(sessions)
        s = sessions[i]
        text = data(op['data'])
        raw = op['raw'] and not s['signed']
        site.w.entropy.reseed(op['seed'])
        with site.on(s['p']) as K:
          out, ex, msg = site.attempt(K, lambda: (
              s['obj'].Encrypt(text, None) if raw else s['obj'].Encrypt(text)))
          again = s['obj'].session_material
        if out != 'ok':
          raise Violation('cannot-send', '%s %r' % (out, ex))
        if again != s['mat']:
          raise Violation('material', 'session material changed')
        how = 'raw' if raw else 'b64'
        if 'eks' in s:
          self.belongs(s['mat'], refkz.b64e(B(msg)) if raw else msg, text,
                       s['signed'], s.pop('eks'))
        sent.append({'s': i, 'how': how, 'msg': msg, 'text': text,
                     'raw': msgs.raw_of(how, msg)})
      elif o == 'accept':
        if sessions:
          self.accept(site, ctx, op, sessions, encs, sigs, takers, sk)
      elif o == 'deliver':
        if sent and takers:
          self.deliver(site, ctx, op, sessions, sent, takers, rotations, ek, sk)
      elif o == 'churn':
        self.churn(site, ctx, op, encs[0], sigs[0])
      elif o == 'retire':
        # the key of a session leaves its keyset, another one takes over
        s = sessions[op['pick'] % len(sessions)] if sessions else {}
        a = (encs if op['on'] == 'enc' else sigs)[s.get(op['on'], 0)]
        key = s.get('ekey' if op['on'] == 'enc' else 'skey')
        for n, k in sorted(a.must().keys.items()):
          if key is None or k.ident() != key.ident():
            continue
          self.admin(a, {'op': 'addkey', 'status': 'PRIMARY', 'size': 2048
                         if a.kind == 'rsa' else None, 'seed': op['seed']})
          for what in ('demote', 'revoke'):
            if what == 'demote' and a.must().statuses()[n] == 'INACTIVE':
              continue
            out, ex = a.run({'op': what, 'version': n}, op['seed'])
            if out != 'ok':
              raise Violation('admin-failed', '%s: %s %r' % (what, out, ex))
          rotations += 1
      else:
        if self.admin((encs if op['on'] == 'enc' else sigs)[0], op):
          rotations += 1

  def steer(self, site, key, seed):
    """Session keys and OAEP seed for which leading bytes are zero."""
    r = random.Random('session/%s' % seed)
    a, h = b'\0' + r.randbytes(15), b'\0' + r.randbytes(31)
    text = refkz.i4(2) + refkz.pack(a) + refkz.pack(h)
    s = edges.oaep_seed(key.pub, text, r.choice(('oaep0', 'ct0')), seed)
    if s is not None:
      site.w.entropy.force = {16: [a], 32: [h], 20: [s]}

  def nonce(self, eks, mat, signed):
    if not signed:
      return None
    try:
      return refkz.Session.load(eks.decrypt(refkz.b64d(mat)), True).nonce
    except (refkz.RefError, ValueError, KeyError) as e:
      raise Violation('material', 'session material is not what it should be: '
                      '%r' % e)

  def resigned(self, op, m, s, sessions, sent):
    """The message signed again by its signer, with another nonce."""
    how, seed = op['resign']
    rng = random.Random(seed)
    n = s['nonce']
    inner = m['raw'][9:9 + refkz.b2i(m['raw'][5:9])]
    others = [x for x in sessions if x['nonce'] is not None and
              x['nonce'] != n]
    if how == 'absent':
      k = s['skey']
      return refkz.b64e(b'\0' + k.hash + refkz.pack(inner) + k.sign(
          inner + b'\0', rng.randbytes))
    if how == 'none':
      nonce = b''
    elif how == 'prefix':
      nonce = n[:rng.randrange(len(n))]
    elif how == 'longer':
      nonce = n + rng.choice((b'\0', b'x', n))
    elif how == 'bit':
      i = rng.randrange(len(n))
      nonce = n[:i] + bytes([n[i] ^ (1 << rng.randrange(8))]) + n[i + 1:]
    elif how == 'other':
      if not others:
        return None
      nonce = others[rng.randrange(len(others))]['nonce']
    else:
      # right nonce, but the ciphertext of another session
      foreign = [x for x in sent if x['s'] != m['s'] and
                 sessions[x['s']]['nonce'] is not None]
      if not foreign:
        return None
      x = foreign[rng.randrange(len(foreign))]['raw']
      inner, nonce = x[9:9 + refkz.b2i(x[5:9])], n
    one = refkz.Keyset('', '', s['skey'].type)
    one.versions[1] = ['PRIMARY', False]
    one.keys[1] = s['skey']
    return refkz.b64e(one.attached_sign(inner, nonce, rng.randbytes))

  def belongs(self, mat, msg, text, signed, eks):
    """Is msg encrypted with the session key in mat?"""
    try:
      ses = refkz.Session.load(eks.decrypt(refkz.b64d(mat)), signed)
      raw = refkz.b64d(msg)
      if signed:
        raw = raw[9:9 + refkz.b2i(raw[5:9])]
      good = ses.key.decrypt(raw) == B(text)
    except (refkz.RefError, ValueError, KeyError):
      good = False
    if not good:
      raise Violation('other-session', 'a session message is not encrypted '
                      'with the key in its session material')

  def churn(self, site, ctx, op, e, s):
    """One process that starts, serves and forgets sessions."""
    eks = e.must()
    if 'PRIMARY' not in eks.statuses().values() or (
        op['signed'] and 'PRIMARY' not in s.must().statuses().values()):
      return
    site.w.entropy.reseed(op['seed'])
    ctx.probe('churn')
    with site.on(self.process('server', {'shared': True})) as K:
      def go():
        crypter = K.keyczar.Crypter.Read(e.loc)
        signer = K.keyczar.Signer.Read(s.loc)
        seen = set()
        for i in range(op['n']):
          x = (K.keyczar.SignedSessionEncrypter(crypter, signer)
               if op['signed'] else K.keyczar.SessionEncrypter(crypter))
          text = 'message %d' % i
          m, mat = x.Encrypt(text), x.session_material
          del x
          self.belongs(mat, m, text, op['signed'], eks)
          k = refkz.Session.load(eks.decrypt(refkz.b64d(mat)),
                                 op['signed']).key.ident()
          if k in seen:
            raise Violation('shared-key', 'two sessions of one process have '
                            'the same key')
          seen.add(k)
          x = (K.keyczar.SignedSessionDecrypter(crypter, signer, mat)
               if op['signed'] else K.keyczar.SessionDecrypter(crypter, mat))
          if x.Decrypt(m) != text:
            raise Violation('lost', 'message of session %d of a process did '
                            'not decrypt to itself' % i)
          del x
      out, ex, _ = site.attempt(K, go)
    if out != 'ok':
      raise Violation('lost', 'serving %d sessions in one process: %s %r' %
                      (op['n'], out, ex))

  def accept(self, site, ctx, op, sessions, encs, sigs, takers, sk):
    i = op['pick'] % len(sessions)
    s = sessions[i]
    mat = s['mat']
    for f in op['faults']:
      mat = hit(f, 'b64', mat, [x['raw'] for x in sessions],
                [k.hash for k in encs[0].must().keys.values()])
      ctx.fault('material_' + f['f'])
    e, v = encs[op['enc']], sigs[op['sig']]
    signed = s['signed'] != bool(op['form'])
    eks, vks = e.must(), v.must()
    vloc = v.loc
    held = op.get('held')
    if not held and op['pub'] and sk in ASYM and op['sig'] == 0:
      out, ex = v.run({'op': 'pubkey', 'dest': PUB}, 1)
      if out != 'ok':
        raise Violation('admin-failed', 'pubkey: %r' % ex)
      vloc = PUB
      ctx.probe('public_verifier')
    key = (e.loc, v.loc)
    if held and key in self.kept:
      # a server that opened its keysets once
      p, crypter, verifier, eks, vks = self.kept[key]
      ctx.probe('held_receiver')
    else:
      p = self.process('receiver', op)
      with site.on(p) as K:
        crypter = K.keyczar.Crypter.Read(e.loc)
        verifier = K.keyczar.Verifier.Read(vloc)
      if held:
        self.kept[key] = p, crypter, verifier, eks, vks
    with site.on(p) as K:
      if held and op['faults']:
        # it has seen what was sent before the network damaged it
        site.attempt(K, lambda: (
            K.keyczar.SignedSessionDecrypter(crypter, verifier, s['mat'])
            if signed else K.keyczar.SessionDecrypter(crypter, s['mat'])))
      out, ex, obj = site.attempt(K, lambda: (
          K.keyczar.SignedSessionDecrypter(crypter, verifier, mat) if signed
          else K.keyczar.SessionDecrypter(crypter, mat)))
    same = undamaged('b64', mat, s['mat']) and not op['form']
    known = s['ekey'].ident() in [k.ident() for k in eks.keys.values()]
    ctx.event('accept', i, [f['f'] for f in op['faults']], op['enc'], out)
    ctx.state('accept', s['signed'], op['form'],
              [f['f'] for f in op['faults']], out)
    if same and known:
      if out != 'ok':
        raise Violation('refused-material', 'session material: %s %r' %
                        (out, ex))
    else:
      ctx.nontrivial = True
      if op['form']:
        ctx.probe('wrong_form')
      elif not same:
        ctx.probe('damaged_material')
      elif op['enc'] != s['enc']:
        ctx.probe('other_keyset')
      else:
        ctx.probe('revoked_material')
      if out == 'other':
        raise Violation('wrong-error', 'session material (%s) raised %r' %
                        ([f['f'] for f in op['faults']] or 'misdelivered', ex))
      if out != 'ok':
        return
      if same and not known:
        raise Violation('forged', 'session material accepted without its key')
    # damaged material that still stands for the same bytes may be used
    raw = strict('b64', mat)

    def alike(x):
      return raw is not None and x['signed'] == signed and (
          raw == x['raw'] or (
              x['ekey'].type.startswith('RSA') and raw[:5] == x['raw'][:5] and
              refkz.b2i(raw[5:]) % getattr(x['ekey'], 'pub', x['ekey']).n ==
              refkz.b2i(x['raw'][5:])))
    own = i if same or (not op['form'] and raw is None) else None
    if own is None:
      # pieces of materials may have come together to one that was made
      own = ([j for j in [i] + list(range(len(sessions)))
              if alike(sessions[j])] or [None])[0]
    if own is None and not op['form']:
      raise Violation('forged', 'damaged session material (%s) was accepted' %
                      [f['f'] for f in op['faults']])
    takers.append({'p': p, 'obj': obj, 's': own, 'sure': same,
                   'signed': signed, 'vkeys':
                   {getattr(k, 'pub', k).ident() for k in vks.keys.values()}})

  def deliver(self, site, ctx, op, sessions, sent, takers, rotations, ek, sk):
    t = takers[op['to'] % len(takers)]
    pool = sent
    if op['own'] and t['s'] is not None:
      pool = [m for m in sent if m['s'] == t['s']] or sent
    m = pool[op['pick'] % len(pool)]
    s = sessions[m['s']]
    how = m['how']
    if t['signed'] and how == 'raw':
      how, base = 'b64', refkz.b64e(m['raw'])
    else:
      base = m['msg']
    got = base
    for f in op['faults']:
      got = hit(f, how, got, [x['raw'] for x in sent], [])
      ctx.fault('net_' + f['f'])
    if op.get('resign'):
      if not (s['signed'] and t['signed']):
        return
      got = self.resigned(op, m, s, sessions, sent)
      if got is None:
        return
      ctx.probe('resigned')
      ctx.fault('signed_for_other_session')
    for i in range(op['copies']):
      with site.on(t['p']) as K:
        out, ex, v = site.attempt(K, lambda: (
            t['obj'].Decrypt(got, None) if how == 'raw' else
            t['obj'].Decrypt(got)))
      rel = ('own' if t['s'] == m['s'] else 'other')
      fs = [f['f'] for f in op['faults']] + op.get('resign', [])[:1]
      ctx.event('deliver', rel, fs, out, v is None)
      ctx.state(ek, sk, t['signed'], rel, fs, out, v is None)
      skey = s['skey'] and getattr(s['skey'], 'pub', s['skey']).ident()
      trusted = not s['signed'] or skey in t['vkeys']
      clean = (undamaged(how, got, base) and t['s'] == m['s'] and
               t['signed'] == s['signed'] and trusted)
      if clean and t['sure']:
        if out != 'ok' or v != m['text']:
          raise Violation('lost', 'a message of %d characters of its own '
                          'session gave %s %r' % (len(m['text']), out,
                                                  ex or type(v)))
        ctx.probe('clean_again' if i else 'clean')
        if rotations > s['rot']:
          ctx.probe('after_rotation')
        continue
      ctx.nontrivial = True
      if fs:
        ctx.probe('damaged_message')
      elif rel == 'other':
        ctx.probe('other_session')
      elif not trusted:
        ctx.probe('other_signer')
      if out == 'other':
        raise Violation('wrong-error', 'session message (%s, %s) raised %r' %
                        (rel, fs, ex))
      if out == 'error':
        continue
      if v is None and t['signed']:
        ctx.probe('signed_none')
        continue
      if not self.founded(t, v, how, got, sessions, sent, sk):
        raise Violation('forged', 'session message (%s, %s) gave %s' %
                        (rel, fs, 'plaintext nobody sent in the session'
                         if isinstance(v, str) else repr(v)))

  def founded(self, t, v, how, got, sessions, sent, sk):
    if t['s'] is None or not isinstance(v, str):
      return False
    s = sessions[t['s']]
    if s['signed'] != t['signed']:
      return False
    if s['signed'] and (getattr(s['skey'], 'pub', s['skey']).ident()
                        not in t['vkeys']):
      return False
    raw = strict(how, got)
    for m in sent:
      if m['s'] != t['s'] or m['text'] != v:
        continue
      if raw is None or raw == m['raw']:
        return True
      if s['signed'] and sk != 'hmac':
        # another encoding of the same signature over the same content
        n = 9 + refkz.b2i(m['raw'][5:9])
        if raw[:n] == m['raw'][:n]:
          a, b = raw[n:], m['raw'][n:]
          if sk == 'rsasign':
            mod = getattr(s['skey'], 'pub', s['skey']).n
            return refkz.b2i(a) % mod == refkz.b2i(b) % mod
          try:
            return refkz.parse_dsa(a) == refkz.parse_dsa(b)
          except (refkz.RefError, IndexError):
            return True
    return False
