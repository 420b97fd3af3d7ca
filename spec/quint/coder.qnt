// The LASzip entropy coder: adaptive models, interval coding with exact (unbounded) arithmetic, integer coding.
//
// The encoder's interval is kept as one unbounded integer, so that carries need no rule of their own: the bytes
// produced are the digits of that number. Nothing here knows about buffers.
module coder {
  // ------------------------------------------------------------ coding operations
  // l: the layer it goes to
  // kind 0: symbol `v` of the adaptive model `key` with `n` symbols      kind 1: bit `v` of the adaptive bit model `key`
  // kind 2: `n` raw bits of value `v` (n <= 19)
  type Key = (int, int, int)
  type Op = { l: int, k: int, key: Key, n: int, v: int }

  type Model = { cnt: List[int], dist: List[int], total: int, cycle: int, left: int }
  type Bit = { zero: int, total: int, prob: int, cycle: int, left: int }
  type Models = { syms: Key -> Model, bits: Key -> Bit }
  // The interval [low, low + len), low a number of any size of which the last 32 bits are still open and the others are the
  // n bytes so far. Its leading bytes are moved to `done` now and then: digits of BLOCK bytes each.
  type Enc = { done: List[int], low: int, len: int, n: int, m: Models }

  pure val TOP = 2^24
  pure val noModels: Models = { syms: Map(), bits: Map() }
  pure val encInit: Enc = { done: [], low: 0, len: 2^32 - 1, n: 0, m: noModels }

  // ------------------------------------------------------------ adaptive models
  pure def repeat(n: int, v: int): List[int] = range(0, n).foldl([], (l, i) => l.append(v))

  pure def rescale(m: Model): Model = {
    val n = m.cnt.length()
    val t0 = m.total + m.cycle
    val h = if (t0 > 32768) m.cnt.foldl({ l: [], t: 0 }, (a, c) => {
              val d = (c + 1) / 2
              { l: a.l.append(d), t: a.t + d } })
            else { l: m.cnt, t: t0 }
    val scale = 2^31 / h.t
    val d = h.l.foldl({ l: [], sum: 0 }, (a, c) => { l: a.l.append(scale * a.sum / 65536), sum: a.sum + c })
    val c5 = 5 * m.cycle / 4
    val cycle = if (c5 > (n + 6) * 8) (n + 6) * 8 else c5
    { cnt: h.l, dist: d.l, total: h.t, cycle: cycle, left: cycle }
  }

  pure def fresh(n: int): Model = {
    val m = rescale({ cnt: repeat(n, 1), dist: [], total: 0, cycle: n, left: 0 })
    { ...m, cycle: (n + 6) / 2, left: (n + 6) / 2 }
  }

  pure val freshOf: int -> Model = Set(2, 3, 4, 6, 9, 16, 17, 32, 33, 64, 128, 256, 512, 515, 516)
    .union(Set(8, 5)).mapBy(n => fresh(n))

  pure val freshBit: Bit = { zero: 1, total: 2, prob: 4096, cycle: 4, left: 4 }

  pure def rescaleBit(b: Bit): Bit = {
    val t0 = b.total + b.cycle
    val h = if (t0 > 8192) {
              val t = (t0 + 1) / 2
              val z = (b.zero + 1) / 2
              { z: z, t: if (z == t) t + 1 else t }
            } else { z: b.zero, t: t0 }
    val scale = 2^31 / h.t
    val c5 = 5 * b.cycle / 4
    val cycle = if (c5 > 64) 64 else c5
    { zero: h.z, total: h.t, prob: h.z * scale / 2^18, cycle: cycle, left: cycle }
  }

  pure def modelOf(ms: Models, key: Key, n: int): Model =
    if (ms.syms.keys().contains(key)) ms.syms.get(key) else if (freshOf.keys().contains(n)) freshOf.get(n) else fresh(n)
  pure def bitOf(ms: Models, key: Key): Bit = if (ms.bits.keys().contains(key)) ms.bits.get(key) else freshBit

  pure def seen(m: Model, s: int): Model = {
    val u = { ...m, cnt: m.cnt.replaceAt(s, m.cnt[s] + 1), left: m.left - 1 }
    if (u.left == 0) rescale(u) else u
  }
  pure def seenBit(b: Bit, v: int): Bit = {
    val u = { ...b, zero: b.zero + (1 - v), left: b.left - 1 }
    if (u.left == 0) rescaleBit(u) else u
  }

  // ------------------------------------------------------------ interval coding
  pure val BLOCK = 512
  pure val DIGIT = 2^(8 * 512)
  pure def renorm(e: Enc): Enc =
    if (e.len >= TOP) e
    else if (e.len >= 65536) settle({ ...e, low: e.low * 256, len: e.len * 256, n: e.n + 1 })
    else if (e.len >= 256) settle({ ...e, low: e.low * 65536, len: e.len * 65536, n: e.n + 2 })
    else settle({ ...e, low: e.low * 16777216, len: e.len * 16777216, n: e.n + 3 })
  // Adds one to a number in digits
  pure def increment(ds: List[int]): List[int] =
    range(0, ds.length()).foldl({ ds: ds, c: 1 }, (a, i) => {
      val j = ds.length() - 1 - i
      val d = a.ds[j] + a.c
      if (a.c == 0) a else if (d == DIGIT) { ds: a.ds.replaceAt(j, 0), c: 1 } else { ds: a.ds.replaceAt(j, d), c: 0 } }).ds
  // Moves the first BLOCK bytes to `done`, when there are twice as many
  pure def settle(e: Enc): Enc = if (e.n < 2 * BLOCK) e else moved(e)
  pure def moved(e: Enc): Enc = {
    val unit = 2^(8 * (e.n - BLOCK) + 32)
    val top = e.low / unit
    val ds = if (top >= DIGIT) increment(e.done) else e.done
    { ...e, done: ds.append(top % DIGIT), low: e.low % unit, n: e.n - BLOCK }
  }

  // The part of the interval that stands for the operation, before it is scaled
  pure def narrow(e: Enc, o: Op): Enc =
    if (o.k == 0) {
      val m = modelOf(e.m, o.key, o.n)
      val unit = e.len / 32768
      val x = m.dist[o.v] * unit
      val len = if (o.v == o.n - 1) e.len - x else m.dist[o.v + 1] * unit - x
      { ...e, low: e.low + x, len: len, m: { ...e.m, syms: e.m.syms.put(o.key, seen(m, o.v)) } }
    } else if (o.k == 1) {
      val b = bitOf(e.m, o.key)
      val x = b.prob * (e.len / 8192)
      val m2 = { ...e.m, bits: e.m.bits.put(o.key, seenBit(b, o.v)) }
      if (o.v == 0) { ...e, len: x, m: m2 } else { ...e, low: e.low + x, len: e.len - x, m: m2 }
    } else {
      val len = e.len / 2^(o.n)
      { ...e, low: e.low + o.v * len, len: len }
    }
  pure def code(e: Enc, o: Op): Enc = renorm(narrow(e, o))

  // ------------------------------------------------------------ decoding
  // Which value an operation like `o` stands for, when the number being decoded is `at` above the start of the interval
  pure def valueAt(e: Enc, o: Op, at: int): int =
    if (o.k == 0) {
      val m = modelOf(e.m, o.key, o.n)
      val unit = e.len / 32768
      m.dist.select(d => d * unit <= at).length() - 1
    } else if (o.k == 1) bit01(at >= bitOf(e.m, o.key).prob * (e.len / 8192))
    else at / (e.len / 2^(o.n))
  pure def bit01(b: bool): int = if (b) 1 else 0

  // Bytes are given as numbers and how many bytes each has, most significant byte first
  type Part = { v: int, n: int }
  pure def finish(e: Enc): List[Part] = {
    val last = if (e.len > 2 * TOP) (e.low + TOP) * 256 / 2^32 * TOP else (e.low + TOP / 2) * 65536 / 2^32 * 65536
    val n = e.n + 4
    val over = last >= 2^(8 * n)
    (if (over) increment(e.done) else e.done).foldl([], (l, d) => l.append({ v: d, n: BLOCK }))
      .append({ v: last % 2^(8 * n), n: n })
  }
  pure def sizeOf(ps: List[Part]): int = ps.foldl(0, (a, p) => a + p.n)

  // ------------------------------------------------------------ integers
  pure def mod(a: int, m: int): int = { val r = a % m  if (r < 0) r + m else r }
  pure def wrap32(a: int): int = { val r = mod(a, 2^32)  if (r >= 2^31) r - 2^32 else r }
  pure def wrap64(a: int): int = { val r = mod(a, 2^64)  if (r >= 2^63) r - 2^64 else r }
  // Number of bits of 0 <= n <= 2^64
  pure def bits4(n: int): int = if (n >= 4) (if (n >= 8) 4 else 3) else if (n >= 2) 2 else n
  pure def bits8(n: int): int = if (n >= 16) 4 + bits4(n / 16) else bits4(n)
  pure def bits16(n: int): int = if (n >= 256) 8 + bits8(n / 256) else bits8(n)
  pure def bits32(n: int): int = if (n >= 65536) 16 + bits16(n / 65536) else bits16(n)
  pure def bitlen(n: int): int = if (n >= 2^64) 65 else if (n >= 2^32) 32 + bits32(n / 2^32) else bits32(n)

  // ------------------------------------------------------------ integer coding
  pure def sym(l: int, key: Key, n: int, v: int): Op = { l: l, k: 0, key: key, n: n, v: v }
  pure def rawBits(l: int, n: int, v: int): List[Op] =
    if (n > 19) [ { l: l, k: 2, key: (0, 0, 0), n: 16, v: v % 65536 }, { l: l, k: 2, key: (0, 0, 0), n: n - 16, v: v / 65536 } ]
    else [ { l: l, k: 2, key: (0, 0, 0), n: n, v: v } ]
  pure def rawInt(l: int, v: int): List[Op] =
    [ { l: l, k: 2, key: (0, 0, 0), n: 16, v: v % 65536 }, { l: l, k: 2, key: (0, 0, 0), n: 16, v: v / 65536 } ]
  pure def rawInt64(l: int, v: int): List[Op] = rawInt(l, v % 2^32).concat(rawInt(l, v / 2^32))

  // What is known of the integers: their corrections are within lo .. hi, the numbers wrap around at `range` (0: at 2^32),
  // there are `bits` + 1 classes of corrections, and the high `high` bits of a class have a model
  type Ints = { lo: int, hi: int, range: int, bits: int, high: int }
  pure def intsOfBits(w: int, high: int): Ints =
    if (w == 32) { lo: -2147483648, hi: 2147483647, range: 0, bits: 32, high: high }
    else { lo: -(2^(w - 1)), hi: 2^(w - 1) - 1, range: 2^w, bits: w, high: high }
  pure def intsOfRange(r: int, high: int): Ints =
    { lo: -(r / 2), hi: r - 1 - r / 2, range: r, bits: bitlen(r - 1), high: high }
  pure val INT32 = intsOfBits(32, 8)
  pure val INT16 = intsOfBits(16, 8)
  pure val INT8 = intsOfBits(8, 8)
  // The correction from the predicted to the real value
  pure def correction(i: Ints, pred: int, real: int): int =
    if (i.range == 0) wrap32(real - pred)
    else {
      val c = real - pred
      if (c < i.lo) c + i.range else if (c > i.hi) c - i.range else c
    }
  // Class of a correction: the k such that it is in -(2^k - 1) .. 2^k but not in that of k - 1
  pure def classOf(c: int): int = bitlen(if (c <= 0) -c else c - 1)

  // Integers of field `f` of channel `ch`
  pure def codeInt(i: Ints, l: int, f: int, ch: int, ctx: int, pred: int, real: int): { ops: List[Op], k: int } = {
    val c = correction(i, pred, real)
    val k = classOf(c)
    val o = sym(l, (f, ch, ctx), i.bits + 1, k)
    val ops =
      if (k == 0) [ o, { l: l, k: 1, key: (f, ch, -1), n: 2, v: c } ]
      else if (k == 32) [ o ]
      else {
        val u = if (c >= 0) c - 1 else c + 2^k - 1
        if (k <= i.high) [ o, sym(l, (f, ch, -1 - k), 2^k, u) ]
        else [ o, sym(l, (f, ch, -1 - k), 2^(i.high), u / 2^(k - i.high)) ].concat(rawBits(l, k - i.high, u % 2^(k - i.high)))
      }
    { ops: ops, k: k }
  }
  pure def intOps(l: int, f: int, ch: int, w: int, ctx: int, pred: int, real: int): { ops: List[Op], k: int } =
    codeInt(if (w == 32) INT32 else if (w == 16) INT16 else INT8, l, f, ch, ctx, pred, real)

  // ------------------------------------------------------------ layers
  pure def stepLayer(ls: int -> Enc, o: Op): int -> Enc =
    ls.put(o.l, code(if (ls.keys().contains(o.l)) ls.get(o.l) else encInit, o))
  pure def stepAll(ls: int -> Enc, ops: List[Op]): int -> Enc = ops.foldl(ls, (a, o) => stepLayer(a, o))
}
