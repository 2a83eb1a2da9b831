"""C09 stream timing, C10 damaged streams, C11 incremental Base64."""
import errno
import itertools
import random

from . import msgs
from . import refkz
from . import world as W
from .common import (Admin, Scenario, Site, Violation, B, ROOT, S, common_plan,
                     data, gen_admin, gen_data, resolve, seed_of, weighted)
from .scen_admin import CR, KS, setup_crypter
from .scen_msg import (ALPHABET, HARMLESS, Net, gen_fault, hit, strict,
                       undamaged)

SIZES = (0, 1, 2, 3, 4, 5, 14, 15, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 35,
         36, 37, 47, 48, 49, 63, 64, 65, 79, 80, 81, 127, 128, 129, 4055, 4056,
         4075, 4076, 4095, 4096, 4097, 4111, 4112, 4113, 8191, 8192, 8193)


def gen_length(rng):
  r = rng.random()
  if r < 0.5:
    return rng.choice(SIZES[:36])
  if r < 0.58:
    return rng.choice(SIZES)
  return rng.randrange(0, rng.choice((50, 200, 200, 700)))


def gen_text(rng):
  d = gen_data(rng)
  return [d[0], gen_length(rng), d[2]]


def gen_script(rng, blocking, errors=False, n=None):
  """What the source does, read by read.  When it is used up, it delivers."""
  style = rng.choice(('all', 'ones', 'mixed', 'mixed', 'stalls', 'small',
                      'long'))
  out = []
  if style == 'all':
    out = []
  else:
    for _ in range(n or rng.randint(3, 120)):
      r = rng.random()
      if style == 'ones':
        a = 1
      elif style == 'long':
        a = rng.choice((1, 3, 5, 16, 21, 37, 60))
        if rng.random() < 0.2:
          out += [rng.choice(('none', 'block')) if blocking else 'none'] * 80
      elif style == 'small':
        a = rng.choice((1, 2, 3, 4, 5, 7, 8, 16, 19, 20, 21))
      elif style == 'stalls':
        a = 'none' if r < 0.6 else rng.choice((1, 5, 16, 20, 40))
      else:
        a = ('none' if r < 0.25 else 'all' if r < 0.35 else
             rng.choice((1, 2, 3, 4, 5, 8, 15, 16, 17, 20, 21, 30)))
      if a == 'none' and blocking and rng.random() < 0.5:
        a = 'block'
      if errors and rng.random() < 0.08:
        a = 'eio'
      out.append(a)
  return out


def gen_reads(rng):
  """Sizes of the reads, used in turn."""
  style = rng.choice(('all', 'ones', 'small', 'mixed', 'big'))
  if style == 'all':
    return [-1]
  if style == 'ones':
    return [1]
  if style == 'small':
    return [rng.choice((1, 2, 3, 5, 7, 15, 16, 17)) for _ in
            range(rng.randint(1, 5))]
  if style == 'big':
    return [rng.choice((100, 1000, 4096, 10000))]
  return [rng.choice((-1, 1, 5, 16, 17, 31, 40, 200, 0)) for _ in
          range(rng.randint(1, 7))] + [rng.choice((-1, 1, 30))]


def gen_pieces(rng, n):
  """Lengths of the write() calls, adding up to n."""
  style = rng.choice(('one', 'one', 'bytes', 'blocks', 'mixed', 'mixed'))
  out, left = [], n
  while left > 0 and len(out) < 400:
    k = {'one': left, 'bytes': 1, 'blocks': rng.choice((15, 16, 16, 17, 32)),
         'mixed': rng.choice((0, 1, 2, 3, 5, 15, 16, 17, 30, 47, 48, 100))}[style]
    k = min(k, left)
    out.append(k)
    left -= k
  if left:
    out.append(left)
  if not out or rng.random() < 0.1:
    out.insert(rng.randrange(len(out) + 1), 0)
  return out


class Wire(object):
  """Source of a reader: splits, withholds and delays what has been put in."""

  def __init__(self, ctx, script, text='', done=True, producer=None):
    self.ctx, self.script, self.pos = ctx, script, 0
    self.buf, self.done, self.producer = text, done, producer
    self.calls = 0
    self.empty = 0            # reads that gave nothing though not at the end
    self.last_ready = True    # did the last read give data or the end?
    self.limit = 40 * (len(text) + len(script)) + 20000
    self.failed = 0
    self.ended = False

  # the sending side
  def write(self, s):
    if not isinstance(s, str):
      raise TypeError('text stream got %s' % type(s).__name__)
    self.buf += s
    self.limit += 40 * len(s)
    return len(s)

  def flush(self):
    pass

  # the receiving side
  def read(self, n=-1):
    self.calls += 1
    if self.calls > self.limit:
      raise Violation('no-progress', 'a stream was read %d times without '
                      'coming to an end' % self.calls)
    a = 'all'
    if self.pos < len(self.script):
      a = self.script[self.pos]
      self.pos += 1
    self.last_ready = True
    if self.ended:
      return ''
    if a == 'eio':
      self.ctx.fault('source_error')
      self.failed += 1
      raise OSError(errno.EIO, 'simulated source error')
    if a in ('none', 'block') or (not self.buf and not self.done):
      self.last_ready = False
      self.empty += 1
      if self.producer is not None and not self.done:
        self.producer()
      if a == 'block':
        self.ctx.fault('source_would_block')
        raise BlockingIOError(errno.EAGAIN, 'simulated')
      self.ctx.fault('source_not_ready')
      return None
    if n is None or n < 0:
      n = len(self.buf)
    if a != 'all' and a < n and a < len(self.buf):
      self.ctx.fault('source_short_read')
      n = a
    out, self.buf = self.buf[:n], self.buf[n:]
    if not out:
      self.ended = True
    return out


def read_all(ctx, reader, sizes, wire, text, what, want_end=True):
  """Read to the end, checking every read; text is the whole plaintext."""
  got = ''
  i = 0
  limit = 2 * len(text) + 60
  useless = 0
  while True:
    n = sizes[i % len(sizes)]
    i += 1
    before = wire.empty
    failed = wire.failed
    try:
      part = reader(n)
    except OSError:
      if wire.failed == failed:
        raise
      ctx.probe('source_recovered')   # the source failed; it is tried again
      continue
    if n == 0 and not part:
      ctx.probe('zero_read')      # asks for nothing, gets nothing
      if not any(sizes):
        sizes = [-1]
      continue
    if wire.empty - before > 64:
      raise Violation('spins', '%s: one read(%d) asked a source that was not '
                      'ready %d times' % (what, n, wire.empty - before))
    if part is None:
      if wire.empty == before:
        # nothing was withheld, yet nothing came
        useless += 1
        if useless > limit:
          raise Violation('no-progress', '%s: %d reads gave nothing though the '
                          'source delivered' % (what, useless))
      continue
    if not isinstance(part, str):
      raise Violation('wrong-data', '%s: read returned %r' % (what, type(part)))
    if n >= 0 and len(part) > n:
      raise Violation('read-too-much', '%s: read(%d) returned %d characters' %
                      (what, n, len(part)))
    if part == '':
      if not wire.done or wire.buf:
        raise Violation('early-end', '%s: end of stream after %d of %d '
                        'characters while the source has %d more' %
                        (what, len(got), len(text), len(wire.buf)))
      if got != text:
        raise Violation('lost-data', '%s: end of stream after %d of %d '
                        'characters' % (what, len(got), len(text)))
      break
    got += part
    if not text.startswith(got):
      raise Violation('wrong-data', '%s: characters %d-%d of %d are wrong' %
                      (what, len(got) - len(part), len(got), len(text)))
    if i > limit + wire.empty + 4 * len(text):
      raise Violation('no-progress', '%s: too many reads' % what)
  for n in (-1, 1, 16, -1):
    part = reader(n)
    if part != '':
      raise Violation('after-end', '%s: read(%d) after the end returned %r' %
                      (what, n, part))
  return got


class Streams(Net):
  id = 'C09'
  must_reach = ('streamed_then_streamed', 'streamed_then_whole',
                'whole_then_streamed', 'live_pipe', 'multi_block', 'empty_text',
                'rotated_meanwhile', 'source_not_ready', 'source_would_block',
                'source_short_read', 'interleaved', 'big', 'huge', 'zero_read',
                'source_recovered')
  rule = ('a run encrypts texts through streams or whole, and reads them back '
          'through streams or whole, several streams interleaved in one '
          'process and rotations in between, from sources that split, '
          'withhold and delay; non-trivial when a source withheld or split '
          'data')
  state_measure = ('(producer, consumer, encoding, length mod 16, blocks, '
                   'source behaviours seen)')
  quick_runs = 12500
  assumptions = Scenario.assumptions + [
      'would-block errors are raised by sources below the Base64 layer only',
      'Base64 text in streams has no line breaks, as documented']

  def gen(self, rng, tier, index):
    p = common_plan(rng)
    p.update({'crypted': rng.random() < 0.08,
              'setup': self.gen_setup(rng, 'aes', rng.randint(1, 3))})
    ops = []
    for _ in range(rng.randint(1, 4)):
      text = gen_text(rng)
      huge = rng.random() < 0.015
      if huge:
        text[1] = rng.choice((65535, 65536, 65537, 65552, 100000, 131072,
                              rng.randrange(10000, 200000)))
      b64 = rng.random() < 0.6
      op = {'op': 'xfer', 'data': text, 'b64': b64, 'seed': seed_of(rng),
            'make': weighted(rng, [(3, 'stream'), (1, 'whole'), (3, 'pipe')]),
            'take': weighted(rng, [(4, 'stream'), (1, 'whole')]),
            'buffer': rng.choice((None, None, -1, 0, 1, 15, 16, 17, 20, 100,
                                  4096, 10000)),
            'pieces': gen_pieces(rng, text[1]),
            'script': gen_script(rng, b64, errors=rng.random() < 0.2),
            'reads': gen_reads(rng),
            'pad': b64 and rng.random() < 0.1}
      if huge:
        op['pieces'] = rng.choice(([text[1]], [text[1] // 2] * 2,
                                   [1, text[1] - 1], [text[1] - 1, 1],
                                   [4096] * (text[1] // 4096)))
        op['reads'] = rng.choice(([-1], [10000], [5, 40000]))
        op['script'] = rng.choice(([], ['none', 'all'], [1, 'none', 30000]))
        op['buffer'] = rng.choice((None, -1, 4096, 100000))
      ops.append(op)
    if rng.random() < 0.4:
      ops.insert(rng.randrange(len(ops) + 1), gen_admin(
          rng, 'aes', {'addkey': 3, 'promote': 2, 'demote': 1}))
    if rng.random() < 0.3:
      ops.append({'op': 'many', 'seed': seed_of(rng), 'streams': [
          {'data': gen_text(rng), 'b64': rng.random() < 0.5, 'reads':
           gen_reads(rng)} for _ in range(rng.randint(2, 4))],
                  'order': seed_of(rng), 'rotate': rng.random() < 0.5})
    p['ops'] = ops
    return p

  def simpler(self, key, value):
    for v in Scenario.simpler(self, key, value):
      yield v
    if key in ('script', 'reads', 'pieces') and isinstance(value, list):
      if value and key != 'reads':
        yield []
      n = len(value)
      if n > 1:
        yield value[:n // 2]
        yield value[n // 2:]
        yield value[:n - 1]
        yield value[1:]

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    cr = None
    if plan['crypted']:
      setup_crypter(site, 'c')
      cr = CR
    a = Admin(site, 'aes', KS, cr)
    a.create()
    for op in plan['setup']:
      self.admin(a, op)
    for op in plan['ops']:
      ctx.steps += 1
      if op['op'] == 'xfer':
        if 'PRIMARY' in a.must().statuses().values():
          self.xfer(site, ctx, a, op)
      elif op['op'] == 'many':
        if 'PRIMARY' in a.must().statuses().values():
          self.many(site, ctx, a, op)
      else:
        self.admin(a, op)

  def source(self, K, crypter, wire, op):
    kw = {}
    if op.get('buffer') is not None:
      kw['buffer_size'] = op['buffer']
    if not op['b64']:
      kw['decoder'] = None
    return crypter.CreateDecryptingStreamReader(wire, **kw)

  def writer(self, enc, sink, b64):
    if b64:
      return enc.CreateEncryptingStreamWriter(sink)
    return enc.CreateEncryptingStreamWriter(sink, encoder=None)

  def xfer(self, site, ctx, a, op):
    text = data(op['data'])
    site.w.entropy.reseed(op['seed'])
    p = site.proc('sender')
    q = site.proc('receiver')
    key = a.must().primary()
    what = '%s text of %d characters' % ('Base64' if op['b64'] else 'raw',
                                         len(text))
    with site.on(p) as K:
      enc = site.open(K, 'Encrypter', KS, a.crypter_loc)
    with site.on(q) as K:
      dec = site.open(K, 'Crypter', KS, a.crypter_loc)
    steps = []
    pos = 0
    for n in op['pieces']:
      if text[pos:pos + n] or n == 0:
        steps.append(text[pos:pos + n])
      pos += n
    if pos < len(text):
      steps.append(text[pos:])
    if op['make'] == 'whole':
      with site.on(p):
        msg = enc.Encrypt(text) if op['b64'] else enc.Encrypt(text, None)
      wire = Wire(ctx, op['script'], msg)
    else:
      wire = Wire(ctx, op['script'], done=False)
      with site.on(p):
        out = self.writer(enc, wire, op['b64'])
      todo = list(steps)

      def step():
        with site.on(p):
          if todo:
            out.write(todo.pop(0))
          elif not wire.done:
            out.flush()
            if op['pad']:
              wire.buf += '=' * (-wire.total % 4)
            wire.done = True
      wire.total = 0
      real_write = wire.write

      def counted(s):
        n = real_write(s)
        wire.total += n
        return n
      wire.write = counted
      if op['make'] == 'pipe' and op['take'] == 'stream':
        wire.producer = step
        ctx.probe('live_pipe')
      else:
        while not wire.done:
          step()
        msg = wire.buf
    if op['take'] == 'whole':
      msg = wire.buf
      how = 'b64' if op['b64'] else 'raw'
      if not op['pad'] and not msgs.made_by(how, msg, key, text):
        raise Violation('not-the-message', '%s: the stream put out something '
                        'else than one message of the primary key' % what)
      with site.on(q) as K:
        out, e, v = site.attempt(K, lambda: msgs.consume(dec, how, msg))
      if out != 'ok' or v != text:
        raise Violation('lost-data', '%s: whole decryption of a streamed '
                        'ciphertext gave %s %r' % (what, out, e or len(v)))
      ctx.probe('streamed_then_whole' if op['make'] != 'whole' else 'whole')
    else:
      with site.on(q) as K:
        r = self.source(K, dec, wire, op)

        def read(n):
          return r.read() if n == -1 else r.read(n)
        out, e, v = site.attempt(K, lambda: read_all(
            ctx, read, op['reads'], wire, text, what))
      if out != 'ok':
        raise Violation('read-failed', '%s (%s): %s %r' %
                        (what, op['make'], out, e))
      ctx.probe('whole_then_streamed' if op['make'] == 'whole' else
                'streamed_then_streamed')
      if wire.empty or op['script']:
        ctx.nontrivial = True
    if len(text) > 16:
      ctx.probe('multi_block')
    if not text:
      ctx.probe('empty_text')
    if len(text) > 4096:
      ctx.probe('big')
    if len(text) > 60000:
      ctx.probe('huge')
    ctx.event('xfer', op['make'], op['take'], op['b64'], len(text), wire.calls,
              wire.empty)
    ctx.state(op['make'], op['take'], op['b64'], len(text) % 16,
              min(len(text) // 16, 3), bool(wire.empty),
              'block' in op['script'], op['buffer'])

  def many(self, site, ctx, a, op):
    """Several streams of one process, in turns, on one shared object."""
    rng = random.Random(op['order'])
    site.w.entropy.reseed(op['seed'])
    p = site.proc('server')
    with site.on(p) as K:
      czar = site.open(K, 'Crypter', KS, a.crypter_loc)
    st = []
    for s in op['streams']:
      text = data(s['data'])
      wire = Wire(ctx, [], done=False)
      with site.on(p) as K:
        out = self.writer(czar, wire, s['b64'])
        r = self.source(K, czar, wire, dict(s, buffer=None))
      st.append({'text': text, 'wire': wire, 'out': out, 'r': r, 'pos': 0,
                 'got': '', 'end': False, 'reads': s['reads'], 'i': 0})
    rotated = not op['rotate']
    for _ in range(100000):
      live = [s for s in st if not s['end']]
      if not live:
        break
      s = live[rng.randrange(len(live))]
      if not rotated and rng.random() < 0.2:
        rotated = True
        self.admin(a, {'op': 'addkey', 'status': 'PRIMARY', 'size': 128,
                       'seed': 7, 'pick': 0})
        ctx.probe('rotated_meanwhile')
      with site.on(p):
        if not s['wire'].done and (len(s['wire'].buf) < 40 or
                                   rng.random() < 0.5):
          n = rng.choice((1, 5, 16, 40, 400))
          if s['pos'] >= len(s['text']):
            s['out'].flush()
            s['wire'].done = True
          else:
            s['out'].write(s['text'][s['pos']:s['pos'] + n])
            s['pos'] += n
        else:
          n = s['reads'][s['i'] % len(s['reads'])]
          s['i'] += 1
          part = s['r'].read() if n == -1 else s['r'].read(n)
          if n == 0 and not part:
            continue
          if part == '':
            if s['got'] != s['text'] or not s['wire'].done:
              raise Violation('early-end', 'one of %d interleaved streams '
                              'ended after %d of %d characters' %
                              (len(st), len(s['got']), len(s['text'])))
            s['end'] = True
          elif part is not None:
            s['got'] += part
            if not s['text'].startswith(s['got']):
              raise Violation('wrong-data', 'interleaved streams: wrong '
                              'characters')
            if n >= 0 and len(part) > n:
              raise Violation('read-too-much', 'read(%d) returned %d' %
                              (n, len(part)))
    else:
      raise Violation('no-progress', 'interleaved streams do not end')
    ctx.probe('interleaved')
    ctx.nontrivial = True
    ctx.event('many', [len(s['text']) for s in st])


# ----------------------------------------------------------------------------

class BrokenSink(object):
  """Output that fails at its k-th call, having taken part of the data."""

  def __init__(self, ctx, at, frac, count, mode):
    self.ctx, self.at, self.frac, self.count = ctx, at, frac, count
    self.mode = mode
    self.calls = 0
    self.data = ''
    self.lost = False

  def _bad(self):
    i = self.calls
    self.calls += 1
    return self.at <= i < self.at + self.count

  def write(self, s):
    if self._bad():
      n = int(len(s) * self.frac)
      self.data += s[:n]
      if n < len(s):
        self.lost = True
      if self.mode == 'short':
        self.ctx.fault('sink_short_write')
        return n
      self.ctx.fault('sink_error')
      raise OSError(errno.ENOSPC, 'simulated')
    self.data += s
    return len(s)

  def flush(self):
    if self._bad() and self.mode != 'short':
      self.ctx.fault('sink_flush_error')
      raise OSError(errno.EIO, 'simulated')


class DamagedStreams(Streams):
  id = 'C10'
  must_reach = ('cut_anywhere', 'damaged', 'undamaged', 'refused', 'unknown_key',
                'writer_failed', 'went_on_after_failure', 'failed_output_refused',
                'after_error', 'source_error', 'sink_error', 'sink_short_write',
                'sink_flush_error', 'source_not_ready')
  rule = ('a run sends ciphertexts through cuts, damage, splices, misdelivery '
          'and failing outputs into decrypting streams under all source '
          'timings; non-trivial when something other than a complete genuine '
          'ciphertext was read')
  state_measure = '(fault, encoding, reader, length class, outcome)'
  quick_runs = 10000

  def gen(self, rng, tier, index):
    p = common_plan(rng)
    p.update({'crypted': False,
              'setup': self.gen_setup(rng, 'aes', rng.randint(1, 2)),
              'setup2': self.gen_setup(rng, 'aes', 1)})
    ops = []
    for _ in range(rng.randint(2, 10)):
      r = rng.random()
      b64 = rng.random() < 0.5
      text = gen_text(rng)
      op = {'data': text, 'b64': b64, 'seed': seed_of(rng),
            'make': rng.choice(('stream', 'whole')),
            'buffer': rng.choice((None, None, None, -1, 1, 16, 100)),
            'script': gen_script(rng, b64, n=rng.randint(3, 40)),
            'reads': gen_reads(rng), 'from': weighted(rng, [(9, 0), (1, 1)])}
      if r < 0.55:
        op.update({'op': 'damage', 'faults': [] if rng.random() < 0.06 else
                   [gen_fault(rng, b64) for _ in
                    range(weighted(rng, [(6, 1), (1, 2)]))]})
        op['faults'] = [f for f in op['faults'] if f['f'] not in HARMLESS]
        if rng.random() < 0.15:
          op['script'] = gen_script(rng, b64, errors=True)
      elif r < 0.75:
        op.update({'op': 'cuts', 'step': rng.choice((1, 1, 3, 7)),
                   'start': rng.randrange(7)})
        op['data'][1] = min(text[1], 130)
        op['script'] = op['script'][:20]
      else:
        op.update({'op': 'sink', 'pieces': gen_pieces(rng, text[1]),
                   'at': rng.choice((0, 1, 2, 3, rng.randrange(0, 12),
                                     rng.randrange(0, 40))),
                   'back': rng.choice((None, None, 0, 1, 2, 3)),
                   'frac': rng.choice((0, 0, 0.3, 0.5, 0.9, 1)),
                   'count': rng.choice((1, 1, 1, 2, 1000)),
                   'mode': weighted(rng, [(4, 'err'), (1, 'short')]),
                   'then': rng.choice(('stop', 'retry', 'retry', 'goon',
                                       'flush', 'flush2'))})
      ops.append(op)
    p['ops'] = ops
    return p

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    admins = self.setup(site, plan, 'aes', None)
    genuine = {}
    made = []
    rp = site.proc('receiver')
    with site.on(rp) as K:
      dec = site.open(K, 'Crypter', KS)
    for op in plan['ops']:
      ctx.steps += 1
      if op['op'] == 'sink':
        self.sink(site, ctx, admins[0], op, rp, dec)
        continue
      a = admins[op['from']]
      text = data(op['data'])
      how = ('stream' if op['make'] == 'stream' else '') + (
          '64' if op['b64'] else 'raw')
      how = {'64': 'b64'}.get(how, how)
      site.w.entropy.reseed(op['seed'])
      p = site.proc('sender')
      with site.on(p) as K:
        msg = msgs.produce(site.open(K, 'Encrypter', a.loc), how, text)
      raw = msgs.raw_of(how, msg)
      if op['from'] == 0:
        genuine[raw] = text
      made.append(raw)
      if op['op'] == 'cuts':
        for n in range(op['start'] % (len(msg) + 1), len(msg), op['step']):
          ctx.fault('net_cut')
          self.feed(site, ctx, op, rp, dec, msg[:n], genuine, 'cut')
          ctx.probe('cut_anywhere')
        continue
      got = msg
      hashes = [k.hash for k in admins[0].must().keys.values()]
      for f in op['faults']:
        got = hit(f, how, got, made, hashes)
        ctx.fault('net_' + f['f'])
      if op['from'] and not op['faults']:
        ctx.probe('unknown_key')
      self.feed(site, ctx, op, rp, dec, got, genuine,
                '+'.join(f['f'] for f in op['faults']) or
                ('foreign' if op['from'] else 'none'))

  def feed(self, site, ctx, op, rp, dec, got, genuine, label):
    """Read a (possibly) damaged ciphertext to its end."""
    wire = Wire(ctx, op['script'], got)
    raw = strict('b64' if op['b64'] else 'raw', got)
    if op['b64'] and any(c in got for c in ' \r\n'):
      raw = None            # streams do not promise to skip white space
    texts = ([genuine[raw]] if raw in genuine else
             [] if raw is not None else list(genuine.values()))
    with site.on(rp) as K:
      r = self.source(K, dec, wire, op)
      total, ended, err, eio = '', False, None, 0
      limit = 8 * (4 * len(got) + 3 * len(op['script']) + 100)
      for i in range(limit):
        n = op['reads'][i % len(op['reads'])]
        try:
          part = r.read() if n == -1 else r.read(n)
        except K.errors.KeyczarError as e:
          err = e
          break
        except OSError:
          if wire.failed == eio:
            raise
          eio = wire.failed
          continue
        except (Violation, W.HarnessError):
          raise
        except Exception as e:  # pylint: disable=broad-except
          raise Violation('wrong-error', 'reading a ciphertext of %d '
                          'characters (%s) raised %r' % (len(got), label, e))
        if part is None or (n == 0 and part == '' and any(op['reads'])):
          continue
        if part == '':
          ended = True
          break
        total += part
      else:
        raise Violation('no-progress', 'reading a ciphertext of %d characters '
                        '(%s) neither ends nor fails' % (len(got), label))
      if err is not None:
        for n in (-1, 5, -1):
          try:
            if r.read(n) == '':
              raise Violation('clean-end', 'after its error (%r) a stream '
                              'reports a clean end (%s)' % (err, label))
          except Violation:
            raise
          except Exception:  # pylint: disable=broad-except
            pass
        ctx.probe('after_error')
    ctx.event('feed', label, len(got), ended, type(err).__name__, len(total))
    ctx.state(label, op['b64'], min(len(got), 70) // 8, ended,
              type(err).__name__)
    if ended and total not in texts:
      raise Violation('clean-end', 'a stream of %d characters (%s) that is not '
                      'a complete ciphertext ended cleanly after %d characters '
                      'of text' % (len(got), label, len(total)))
    if raw in genuine and not wire.failed and not ended:
      raise Violation('lost-data', 'a complete ciphertext (%s) was refused: %r' %
                      (label, err))
    if ended:
      ctx.probe('undamaged')
    else:
      ctx.nontrivial = True
      ctx.probe('refused')
      ctx.probe('damaged')

  def sink(self, site, ctx, a, op, rp, dec):
    """The output of an encrypting stream fails part-way."""
    text = data(op['data'])
    pieces, pos = [], 0
    for n in op['pieces']:
      pieces.append(text[pos:pos + n])
      pos += n
    pieces.append(text[pos:])
    at = op['at']
    site.w.entropy.reseed(op['seed'])
    p = site.proc('sender')
    with site.on(p) as K:
      enc = site.open(K, 'Encrypter', a.loc)
      if op['back'] is not None:
        # count from the end: find out how many calls there are
        probe = BrokenSink(ctx, 10 ** 9, 0, 1, 'err')
        w = self.writer(enc, probe, op['b64'])
        for piece in pieces:
          w.write(piece)
        w.flush()
        at = max(0, probe.calls - 1 - op['back'])
      site.w.entropy.reseed(op['seed'])
      sink = BrokenSink(ctx, at, op['frac'], op['count'], op['mode'])
      fails, unsure, attempts = 0, [], []

      def go(fn, piece):
        """Did it work?  Notes what the application thinks it wrote."""
        out, e, _ = site.attempt(K, fn)
        if piece is not None:
          attempts.append((piece, out == 'ok'))
        return out == 'ok'
      out, e, w = site.attempt(K, lambda: self.writer(enc, sink, op['b64']))
      if out == 'ok':
        alive = True
        for piece in pieces:
          if not alive:
            break
          if not go(lambda: w.write(piece), piece):
            fails += 1
            if op['then'] == 'stop':
              alive = False
            elif op['then'] == 'retry':
              if not go(lambda: w.write(piece), piece):
                fails += 1
                alive = False
            elif op['then'] in ('flush', 'flush2'):
              alive = False
              go(w.flush, None)
            if fails > 4:
              break
        finished = False
        if alive or op['then'] == 'flush2':
          finished = go(w.flush, None)
          if not finished:
            fails += 1
            if op['then'] in ('retry', 'flush', 'flush2', 'goon'):
              finished = go(w.flush, None)
        if fails:
          ctx.probe('writer_failed')
          if op['then'] != 'stop':
            ctx.probe('went_on_after_failure')
      else:
        ctx.probe('writer_failed')
        finished = False
    msg = sink.data
    sure = [x for x, ok in attempts if ok]
    bad = [i for i, (x, ok) in enumerate(attempts) if not ok]
    texts = set()
    for keep in itertools.product((0, 1), repeat=len(bad)):
      on = dict(zip(bad, keep))
      texts.add(''.join(x for i, (x, ok) in enumerate(attempts)
                        if ok or on[i]))
    del sure
    how = 'b64' if op['b64'] else 'raw'
    with site.on(rp) as K:
      out, e, v = site.attempt(K, lambda: msgs.consume(dec, how, msg))
    ctx.event('sink', op['mode'], op['then'], len(msg), out)
    ctx.state('sink', op['mode'], op['then'], op['frac'], op['b64'], out,
              finished)
    if out == 'other':
      raise Violation('wrong-error', 'decrypting the output of a failed stream '
                      'raised %r' % e)
    if out == 'ok' and v not in texts:
      raise Violation('failed-output-accepted', 'the output failed part-way '
                      '(%s, then %s); what reached it decrypts to %d characters '
                      'that differ from the %d written' %
                      (op['mode'], op['then'], len(v), len(text)))
    if out == 'ok':
      ctx.probe('failed_output_complete')
    else:
      ctx.probe('failed_output_refused')
      if finished and not sink.lost:
        raise Violation('lost-data', 'nothing was lost, but the output is '
                        'refused: %r' % e)
    self.feed(site, ctx, op, rp, dec, msg,
              {strict(how, msg): v} if out == 'ok' else {}, 'sink')


# ----------------------------------------------------------------------------

class Base64Streams(Scenario):
  id = 'C11'
  must_reach = ('encoded', 'decoded', 'incomplete', 'limited_chars',
                'limited_size', 'padded', 'mid_flush', 'closed', 'empty',
                'source_not_ready', 'source_would_block', 'source_short_read',
                'zero_read', 'lines', 'after_error')
  rule = ('a run pushes byte sequences through the Base64 stream writer and '
          'reader in seeded pieces, sizes and limits, with sources that split, '
          'withhold and would block; non-trivial when the data was split or '
          'withheld')
  state_measure = '(direction, length mod 12, limits, source behaviour, ending)'
  quick_runs = 75000
  assumptions = ['the text has no line breaks, as documented']

  def gen(self, rng, tier, index):
    ops = []
    for _ in range(rng.randint(2, 6)):
      d = gen_data(rng)
      d = [d[0], rng.choice((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13,
                             rng.randrange(200), rng.randrange(200),
                             rng.randrange(9000))), d[2]]
      if rng.random() < 0.01:
        d[1] = rng.choice((16383, 16384, 16385, 32767, 65537, 70000,
                           rng.randrange(9000, 100000)))
      if rng.random() < 0.4:
        ops.append({'op': 'enc', 'data': d, 'pieces': gen_pieces(rng, d[1]),
                    'flush': rng.random() < 0.3, 'twice': rng.random() < 0.3,
                    'close': rng.random() < 0.2, 'lines': rng.random() < 0.2})
      else:
        ops.append({'op': 'dec', 'data': d, 'script': gen_script(
            rng, True, errors=rng.random() < 0.15),
                    'reads': [[rng.choice((-1, -1, 1, 2, 3, 4, 5, 8, 16, 100)),
                               rng.choice((-1, -1, -1, 1, 2, 3, 4, 5, 17, 50, 0))]
                              for _ in range(rng.randint(1, 5))] +
                             [[-1, rng.choice((-1, 7))]],
                    'lines': rng.random() < 0.1,
                    'pad': rng.random() < 0.3,
                    'extra': weighted(rng, [(4, 0), (1, 1)]),
                    'again': rng.random() < 0.1})
    return {'wseed': 1, 'ops': ops}

  simpler = Streams.simpler

  def run(self, plan, ctx):
    site = Site(plan, ctx)
    p = site.proc()
    with site.on(p) as K:
      for op in plan['ops']:
        ctx.steps += 1
        if op['op'] == 'enc':
          self.enc(K, ctx, op)
        else:
          self.dec(K, ctx, site, op)

  def enc(self, K, ctx, op):
    text = data(op['data'])
    sink = msgs.Sink()
    sink.closed = False

    def close():
      sink.closed = True
    sink.close = close
    w = K.util.IncrementalBase64WSStreamWriter(sink)
    want = refkz.b64e(B(text))
    pos = 0
    for i, n in enumerate(op['pieces']):
      piece = text[pos:pos + n]
      if op['lines'] and i % 3 == 1 and len(piece) > 1:
        w.writelines([piece[:1], piece[1:]])
      else:
        w.write(piece)
      pos += n
      if op['flush'] and pos % 3 == 0:
        w.flush()
        ctx.probe('mid_flush')
      if not want.startswith(sink.value()):
        raise Violation('bad-encoding', 'after %d of %d characters the output '
                        'is wrong' % (min(pos, len(text)), len(text)))
    if pos < len(text):
      w.write(text[pos:])
    if op['close']:
      w.close()
      if not sink.closed:
        raise Violation('bad-encoding', 'close left the output open')
      ctx.probe('closed')
    else:
      w.flush()
      if op['twice']:
        w.flush()
    if sink.value() != want:
      raise Violation('bad-encoding', '%d characters in pieces %s gave %d '
                      'instead of %d characters of Base64' %
                      (len(text), op['pieces'][:8], len(sink.value()),
                       len(want)))
    if sink.parts and not sink.flushed and len(text) % 3 and not op['close']:
      raise Violation('bad-encoding', 'flush left the output unflushed')
    ctx.probe('encoded')
    if not text:
      ctx.probe('empty')
    if len(op['pieces']) > 1:
      ctx.nontrivial = True
    ctx.event('enc', len(text), len(op['pieces']))
    ctx.state('enc', len(text) % 12, min(len(op['pieces']), 5), op['flush'])

  def dec(self, K, ctx, site, op):
    text = data(op['data'])
    enc = refkz.b64e(B(text))
    if op['pad']:
      enc += '=' * (-len(enc) % 4)
      ctx.probe('padded')
    broken = bool(op['extra'])
    if broken:
      # a character too many or too few: no Base64 has such a length
      base = refkz.b64e(B(text[:len(text) // 3 * 3]))
      enc = base + 'A'
      text = text[:len(text) // 3 * 3]
    if op.get('lines') and not broken:
      # a source that delivers, read line by line
      wire = Wire(ctx, [x for x in op['script'] if not isinstance(x, str)],
                  enc)
      r = K.util.IncrementalBase64WSStreamReader(wire)
      out, e, lines = site.attempt(K, lambda: list(r))
      if out != 'ok' or ''.join(lines) != text:
        raise Violation('lost-data', '%d characters of Base64, line by line: '
                        '%s %r' % (len(enc), out, e))
      ctx.probe('lines')
      ctx.event('lines', len(enc), len(lines))
      return
    wire = Wire(ctx, op['script'], enc)
    r = K.util.IncrementalBase64WSStreamReader(wire)
    got, i = '', 0
    useless = 0
    what = '%d characters of Base64' % len(enc)
    while True:
      size, chars = op['reads'][i % len(op['reads'])]
      i += 1
      empty = wire.empty
      failed = wire.failed
      out, e, part = site.attempt(K, lambda: r.read(size, chars))
      if out == 'other' and isinstance(e, OSError) and wire.failed > failed:
        ctx.probe('source_recovered')
        continue
      if out == 'error' and broken:
        if wire.buf:
          raise Violation('early-error', '%s: error before the end' % what)
        if not text.startswith(got):
          raise Violation('wrong-data', what)
        ctx.probe('incomplete')
        for a, b in ((-1, -1), (4, -1), (-1, 3), (1, 1)):
          if site.attempt(K, lambda: r.read(a, b))[::2] == ('ok', ''):
            raise Violation('clean-end', '%s is not complete Base64; reading on '
                            'after the error it ended cleanly' % what)
        ctx.probe('after_error')
        break
      if out != 'ok':
        raise Violation('wrong-error', '%s: read(%d, %d) raised %r' %
                        (what, size, chars, e))
      if chars >= 0:
        ctx.probe('limited_chars')
      if size >= 0:
        ctx.probe('limited_size')
      if chars == 0 and not part:
        ctx.probe('zero_read')
        if all(x[1] == 0 for x in op['reads']):
          break
        continue
      if part is None:
        if wire.empty == empty:
          raise Violation('false-none', '%s: no-data-yet although the source '
                          'delivered' % what)
        continue
      if chars >= 0 and len(part) > chars:
        raise Violation('read-too-much', '%s: read(%d, %d) returned %d' %
                        (what, size, chars, len(part)))
      if part == '':
        if wire.buf or wire.empty > empty and wire.last_ready is False:
          raise Violation('early-end', '%s: end of stream after %d characters '
                          'of text' % (what, len(got)))
        if broken:
          raise Violation('clean-end', '%s is not complete Base64, yet it '
                          'ended cleanly' % what)
        if got != text:
          raise Violation('lost-data', '%s: %d of %d characters' %
                          (what, len(got), len(text)))
        for a, b in ((-1, -1), (4, -1), (-1, 3), (1, 1)):
          if r.read(a, b) != '':
            raise Violation('after-end', '%s: data after the end' % what)
        ctx.probe('decoded')
        break
      got += part
      if not text.startswith(got):
        raise Violation('wrong-data', '%s: wrong after %d characters' %
                        (what, len(got)))
      if i > 4 * len(text) + 4 * wire.empty + 100:
        raise Violation('no-progress', what)
    if op['script']:
      ctx.nontrivial = True
    if op['again'] and not broken and 'eio' not in op['script']:
      # the same reader, reset for another message
      wire.buf, wire.ended = enc, False
      r.reset()
      got = ''
      for _ in range(len(enc) + len(op['script']) + 20):
        part = r.read()
        if part == '':
          break
        got += part or ''
      if got != text:
        raise Violation('lost-data', '%s: after reset()' % what)
    ctx.event('dec', len(enc), i, wire.calls, wire.empty)
    ctx.state('dec', len(enc) % 12, broken, op['pad'], bool(wire.empty),
              [r for r in op['reads'][:1]])
