// Behaviours of the entropy coder: sequences of calls of any kind and length, with the bytes they become.
//
// A step is a batch of calls of one regime. In a steering regime the values are those that some given number decodes
// to: the interval then straddles that number for as long as one likes, and one more call decides whether a carry goes
// through all the bytes produced in the meantime.
module codergen {
  import coder.* from "./coder"

  // Calls. k: 0 symbol of model m, 1 bit of bit model m, 2 m raw bits, 3 a bit, 4 a byte, 5 16 bits, 6 32 bits, 7 64 bits,
  // 8 an integer of the integer coder m in context c, predicted as p
  type Call = { k: int, m: int, c: int, p: int, v: int }
  pure val SYMS = [2, 3, 8, 16, 17, 33, 64, 256, 515, 1500]
  pure val BITS = 3
  pure val CONTEXTS = 3
  pure val INTS: List[Ints] = [INT8, INT16, INT32, intsOfBits(1, 8), intsOfBits(5, 8), intsOfBits(13, 8), intsOfBits(31, 8),
    intsOfBits(24, 4), intsOfRange(1000, 8), intsOfRange(3, 8), intsOfRange(65537, 8), intsOfRange(256, 8), intsOfBits(32, 11)]

  pure def rawOp(n: int, v: int): Op = { l: 0, k: 2, key: (0, 0, 0), n: n, v: v }
  pure def opsOf(c: Call): List[Op] =
    if (c.k == 0) [sym(0, (1, c.m, 0), SYMS[c.m], c.v)]
    else if (c.k == 1) [{ l: 0, k: 1, key: (2, c.m, 0), n: 2, v: c.v }]
    else if (c.k == 2) rawBits(0, c.m, c.v)
    else if (c.k == 3) [rawOp(1, c.v)]
    else if (c.k == 4) [rawOp(8, c.v)]
    else if (c.k == 5) [rawOp(16, c.v)]
    else if (c.k == 6) rawInt(0, c.v)
    else if (c.k == 7) rawInt64(0, c.v)
    else codeInt(INTS[c.m], 0, 3, c.m, c.c, c.p, c.v).ops

  // ------------------------------------------------------------ choices
  // which: 0 any call; 1 symbols of any model; 2 symbols of model m; 3 bits; 4 raw bits of any number; 5 16 raw bits;
  //        6 integers; 7 integers of coder m; 8 symbols of 256 and bits; 9 bits of model m
  // shape: 0 any value; 1 mostly small ones; 2 always the same; 3 steered; 4 steered, with now and then another value
  type Regime = { which: int, shape: int, m: int, fill: int, n: int, end: bool }

  pure def rnd(r: int): int = (r * 6364136223846793005 + 1442695040888963407) % 2^64
  pure def draw(r: int, n: int): int = r / 2^31 % n
  pure def draw64(r: int, n: int): int = (rnd(r) / 2^32 * 2^32 + rnd(rnd(r)) / 2^32) % n

  pure def kindOf(g: Regime, r: int): int =
    if (g.which == 0) draw(r, if (g.shape >= 3) 6 else 9)
    else if (g.which == 1 or g.which == 2) 0
    else if (g.which == 3 or g.which == 9) 1
    else if (g.which == 4) 2 + draw(r, if (g.shape >= 3) 4 else 6)
    else if (g.which == 5) 5
    else if (g.which == 8) draw(r, 2)
    else 8
  pure def rawMost(g: Regime): int = if (g.shape >= 3) 19 else 32
  pure def whichOf(g: Regime, k: int, r: int): int =
    if (k == 0) (if (g.which == 2) g.m % SYMS.length() else if (g.which == 8) 7 else draw(r, SYMS.length()))
    else if (k == 1) (if (g.which == 9) g.m % BITS else draw(r, BITS))
    else if (k == 2) 1 + draw(r, rawMost(g))
    else if (k == 8) (if (g.which == 7) g.m % INTS.length() else draw(r, INTS.length()))
    else 0
  pure def countOf(k: int, m: int): int =
    if (k == 0) SYMS[m] else if (k == 1) 2 else if (k == 2) 2^m else [2, 256, 65536, 2^32, 2^64][k - 3]

  // Integers: in the range of the coder (32 bits: any two, but mostly corrections of all classes)
  pure def intCall(g: Regime, m: int, r1: int, r2: int, r3: int): Call = {
    val i = INTS[m]
    val n = if (i.range == 0) 2^32 else i.range
    val p = draw64(r1, n)
    val w = draw(r2, i.bits + 1)
    val d = if (g.shape == 2) 5 else draw64(r2, 2^w + 1) * (1 - 2 * draw(r3, 2))
    val v = if (g.shape == 0 and draw(r3, 3) == 0) draw64(r3, n) else mod(p + d, n)
    val q = if (draw(r3, 50) == 0) (if (draw(r2, 2) == 0) 0 else n - 1) else v
    { k: 8, m: m, c: draw(r1, CONTEXTS), p: if (i.range == 0) wrap32(p) else p, v: if (i.range == 0) wrap32(q) else q }
  }

  // at: how far above the start of the interval the number is that steers
  type Gen = { e: Enc, at: int, r: int, calls: List[Call], ok: bool }
  pure def valueOf(g: Regime, s: Gen, k: int, m: int, r: int): int = {
    val n = countOf(k, m)
    if (g.shape == 3 or (g.shape == 4 and draw(rnd(r), 20) != 0)) {
      val o = opsOf({ k: k, m: m, c: 0, p: 0, v: 0 })[0]
      val v = valueAt(s.e, o, s.at)
      if (v >= n) n - 1 else v
    }
    else if (g.shape == 2) (if (k == 0) g.m % n else if (k == 1) g.m / BITS % 2 else n - 1)
    else if (g.shape == 1) { val w = draw(r, bitlen(n))  draw64(r, min2(n, 2^w)) }
    else draw64(r, n)
  }
  pure def min2(a: int, b: int): int = if (a < b) a else b

  pure def call(g: Regime, s: Gen): Gen = {
    val r1 = rnd(s.r)
    val r2 = rnd(r1)
    val r3 = rnd(r2)
    val k = kindOf(g, r1)
    val m = whichOf(g, k, r2)
    val c = if (k == 8) intCall(g, m, r1, r2, r3) else { k: k, m: m, c: 0, p: 0, v: valueOf(g, s, k, m, r3) }
    perform(g, { ...s, r: r3 }, c)
  }
  pure def perform(g: Regime, s: Gen, c: Call): Gen = {
    val s2 = opsOf(c).foldl(s, (a, o) => {
      val e1 = narrow(a.e, o)
      val at1 = clampTo(a.at - (e1.low - a.e.low), e1.len)
      val e2 = renorm(e1)
      val f = if (g.fill >= 0) g.fill else draw(a.r, 256)
      { ...a, e: e2, at: scaled(at1, e1.len, f), r: rnd(a.r), ok: a.ok and sound(a.e, e1, e2, o) } })
    { ...s2, calls: s2.calls.append(c) }
  }
  pure def clampTo(v: int, n: int): int = if (v < 0) 0 else if (v >= n) n - 1 else v
  pure def scaled(at: int, len: int, f: int): int =
    if (len >= TOP) at else if (len >= 65536) at * 256 + f else if (len >= 256) at * 65536 + 257 * f else at * 16777216 + 65793 * f

  // Why the values can be read back: every value of an operation stands for a part of the interval of its own which is
  // not empty, and the number written in the end is in all of them
  pure def sound(e: Enc, e1: Enc, e2: Enc, o: Op): bool = and {
    e1.len > 0, e1.low >= e.low, e1.low + e1.len <= e.low + e.len,
    valueAt(e, o, e1.low - e.low) == o.v, valueAt(e, o, e1.low + e1.len - 1 - e.low) == o.v,
    e2.len >= TOP, e2.len < 2^32 }
  pure def endsInside(e: Enc): bool = {
    val v = finish(e)
    val last = v[v.length() - 1]
    // the last part starts with what is left in `low`; a carry into the digits before it shows as a number that is too small
    val w = if (last.v < e.low - e.low % 2^32 and e.done.length() > 0) last.v + 2^(8 * last.n) else last.v
    e.low <= w and w < e.low + e.len
  }
  // The distribution of an adaptive model leaves something for every symbol
  pure def fair(e: Enc): bool = and {
    e.m.syms.keys().forall(k => {
      val d = e.m.syms.get(k).dist
      d[0] == 0 and d[d.length() - 1] < 32768 and range(0, d.length() - 1).foldl(true, (a, i) => a and d[i] < d[i + 1]) }),
    e.m.bits.keys().forall(k => { val p = e.m.bits.get(k).prob  p > 0 and p < 8192 }) }

  pure def batch(g: Regime, s: Gen): Gen = {
    val a = range(0, g.n).foldl({ ...s, calls: [] }, (x, i) => call(g, x))
    // in the end, the largest value: if the interval straddles a number, the carry comes now
    if (g.end) perform(g, a, { k: 5, m: 0, c: 0, p: 0, v: 65535 }) else a
  }

  // ------------------------------------------------------------ behaviours
  var gen: Gen
  var regime: Regime
  var out: List[Part]

  pure val none: Regime = { which: 0, shape: 0, m: 0, fill: 0, n: 0, end: false }
  action init = {
    nondet r = oneOf(0.to(2^31 - 1))
    nondet a = oneOf(0.to(2^31 - 1))
    all { gen' = { e: encInit, at: a, r: r, calls: [], ok: true }, regime' = none, out' = finish(encInit) }
  }
  action run_batch(g: Regime): bool = {
    val s = batch(g, gen)
    all { gen' = s, regime' = g, out' = finish(s.e) }
  }
  action step = {
    nondet which = oneOf(0.to(8))
    nondet shape = oneOf(0.to(4))
    nondet m = oneOf(0.to(19))
    nondet fill = oneOf(Set(-1, 0, 0, 255))
    nondet n = oneOf(Set(1, 5, 40, 300, 300, 1000))
    nondet end = oneOf(Set(true, false))
    run_batch({ which: which, shape: if (which >= 6 and which <= 7 and shape >= 3) 0 else shape, m: m, fill: fill, n: n, end: end })
  }
  // Intervals that straddle a number for longer than any buffer
  action stepLong = {
    nondet which = oneOf(Set(2, 5, 4, 8))
    nondet shape = oneOf(Set(3, 3, 2, 1))
    nondet m = oneOf(Set(7, 9, 8, 4))
    nondet n = oneOf(Set(700, 3000, 6000, 9000, 17000))
    nondet end = oneOf(Set(true, false))
    run_batch({ which: which, shape: shape, m: m, fill: 0, n: n, end: end })
  }
  // Models that have seen so much, and so little of other values, that all their counts are halved again and again
  action stepWorn = {
    nondet which = oneOf(Set(9, 9, 2, 7))
    nondet shape = oneOf(Set(2, 2, 1))
    nondet m = oneOf(0.to(19))
    nondet n = oneOf(Set(50, 300, 9000, 18000, 40000))
    nondet end = oneOf(Set(true, false))
    run_batch({ which: which, shape: shape, m: m, fill: -1, n: if (which == 7) n / 4 else n, end: end })
  }

  val decodable = gen.ok and endsInside(gen.e)
  val fairModels = fair(gen.e)
  val Inv = decodable and fairModels
}
