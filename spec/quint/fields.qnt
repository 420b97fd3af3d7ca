// How LASzip predicts the fields of a point from those before it: for each point, the coding operations it becomes.
//
// One definition per item and version. They say what is coded, not how a program computes it; what the coding
// operations do to the bytes is in coder.qnt.
module fields {
  import coder.* from "./coder"

  // ------------------------------------------------------------ bytes
  type Bytes = List[int]
  pure def u16(b: Bytes, i: int): int = b[i] + 256 * b[i + 1]
  pure def u32(b: Bytes, i: int): int = b[i] + 256 * b[i + 1] + 65536 * b[i + 2] + 16777216 * b[i + 3]
  pure def u64(b: Bytes, i: int): int = u32(b, i) + 2^32 * u32(b, i + 4)
  pure def i16(b: Bytes, i: int): int = { val v = u16(b, i)  if (v >= 32768) v - 65536 else v }
  pure def i32(b: Bytes, i: int): int = wrap32(u32(b, i))
  pure def i64(b: Bytes, i: int): int = wrap64(u64(b, i))
  pure def le(n: int, v: int): Bytes =
    range(0, n).foldl({ l: [], v: v }, (a, i) => { l: a.l.append(a.v % 256), v: a.v / 256 }).l
  pure def bit(c: bool, w: int): int = if (c) w else 0
  pure def even(n: int): int = n - n % 2
  pure def min(a: int, b: int): int = if (a < b) a else b

  // ------------------------------------------------------------ single precision division
  // round(p / q) to the nearest number of 24 significant bits (ties to even), for 0 < p, q; as an integer times 2^-64
  // (exact: p and q are below 2^33, so that the last significant bit is never below 2^-64)
  pure def round24(v: int, exact: bool): int = {
    val n = bitlen2(v)
    if (n <= 24) v
    else {
      val u = 2^(n - 24)
      val d = v / u
      val r = v % u
      val up = r * 2 > u or (r * 2 == u and (not(exact) or d % 2 == 1))
      (if (up) d + 1 else d) * u
    }
  }
  pure def bitlen2(v: int): int = if (v >= 2^64) 64 + bitlen(v / 2^64) else bitlen(v)
  // nearest single precision number of the integer a >= 0
  pure def f32OfInt(a: int): int = round24(a, true)
  // a / b in single precision (a >= 0, b > 0), times 2^64: truncated division is enough for rounding as long as one
  // knows that something was cut off
  pure def f32Div(a: int, b: int): int = {
    val v = f32OfInt(a) * 2^64
    round24(v / f32OfInt(b), v % f32OfInt(b) == 0)
  }
  pure def abs(a: int): int = if (a < 0) -a else a
  pure def satI32(a: int): int = if (a > 2147483647) 2147483647 else if (a < -2147483648) -2147483648 else a
  // (int)(a / b + 0.5) or, for quotients below zero, (int)(a / b - 0.5), in single precision
  pure def quantize(a: int, b: int): int = {
    val q = f32Div(abs(a), abs(b))
    val m = round24(q + 2^63, true) / 2^64
    satI32(if ((a < 0) == (b < 0)) m else -m)
  }
  // (int)(a / b + 0.5) whatever the sign
  pure def quantizeUp(a: int, b: int): int = {
    val q = f32Div(abs(a), abs(b))
    if ((a < 0) == (b < 0)) satI32(round24(q + 2^63, true) / 2^64)
    else if (q <= 2^63) 0
    else satI32(-(round24(q - 2^63, true) / 2^64))
  }

  // ------------------------------------------------------------ running medians of five
  type Med = { v: List[int], high: bool }
  pure val med0: Med = { v: [0, 0, 0, 0, 0], high: true }
  pure def median(m: Med): int = m.v[2]
  pure def addMed(m: Med, x: int): Med = {
    val a = m.v[0]
    val b = m.v[1]
    val c = m.v[2]
    val d = m.v[3]
    val e = m.v[4]
    if (m.high)
      if (x < c)
        { v: if (x < a) [x, a, b, c, d] else if (x < b) [a, x, b, c, d] else [a, b, x, c, d], high: true }
      else { v: if (x < d) [a, b, c, x, d] else [a, b, c, d, x], high: false }
    else
      if (c < x)
        { v: if (e < x) [b, c, d, e, x] else if (d < x) [b, c, d, x, e] else [b, c, x, d, e], high: false }
      else { v: if (b < x) [b, x, c, d, e] else [x, b, c, d, e], high: true }
  }
  // The median of three
  pure def median3(a: int, b: int, c: int): int =
    if (a < b) { if (b < c) b else if (a < c) c else a } else { if (a < c) a else if (b < c) c else b }

  // ------------------------------------------------------------ fields of the operations' keys
  pure val CHANGED = 1
  pure val CHANNEL = 2
  pure val NRETURNS = 3
  pure val RETURN = 4
  pure val RETURNSAME = 5
  pure val DX = 6
  pure val DY = 7
  pure val ZZ = 8
  pure val CLASS = 9
  pure val FLAGS = 10
  pure val INTENSITY = 11
  pure val ANGLE = 12
  pure val USERDATA = 13
  pure val SOURCE = 14
  pure val GPSMULTI = 15
  pure val GPSZERO = 16
  pure val GPSINT = 17
  pure val RGBUSED = 18
  pure val RGBBYTE = 19
  pure val NIRUSED = 20
  pure val NIRBYTE = 21
  pure val WPINDEX = 22
  pure val WPOFFSYM = 23
  pure val WPOFFSET = 24
  pure val WPSIZE = 25
  pure val WPRETURN = 26
  pure val WPXYZ = 27
  pure val EXTRA = 28

  // ------------------------------------------------------------ points of formats 0 to 5
  type P0 = { x: int, y: int, z: int, intensity: int, bits: int, cls: int, angle: int, user: int, source: int }
  pure def p0(b: Bytes): P0 = {
    x: i32(b, 0), y: i32(b, 4), z: i32(b, 8), intensity: u16(b, 12), bits: b[14], cls: b[15], angle: b[16],
    user: b[17], source: u16(b, 18) }

  pure val RETURNMAP = [
    [15, 14, 13, 12, 11, 10,  9,  8],
    [14,  0,  1,  3,  6, 10, 10,  9],
    [13,  1,  2,  4,  7, 11, 11, 10],
    [12,  3,  4,  5,  8, 12, 12, 11],
    [11,  6,  7,  8,  9, 13, 13, 12],
    [10, 10, 11, 12, 13, 14, 14, 13],
    [ 9, 10, 11, 12, 13, 14, 15, 14],
    [ 8,  9, 10, 11, 12, 13, 14, 15] ]
  pure def returnLevel(n: int, r: int): int = abs(n - r)

  // Version 1
  type S01 = { last: P0, dx: List[int], dy: List[int], i: int }
  pure def first01(b: Bytes): S01 = { last: p0(b), dx: [0, 0, 0], dy: [0, 0, 0], i: 0 }
  pure def point01(s: S01, b: Bytes): { s: S01, ops: List[Op] } = {
    val c = p0(b)
    val o = s.last
    val dx = wrap32(c.x - o.x)
    val dy = wrap32(c.y - o.y)
    val ox = intOps(0, DX, 0, 32, 0, median3(s.dx[0], s.dx[1], s.dx[2]), dx)
    val oy = intOps(0, DY, 0, 32, min(ox.k, 19), median3(s.dy[0], s.dy[1], s.dy[2]), dy)
    val k = (ox.k + oy.k) / 2
    val oz = intOps(0, ZZ, 0, 32, min(k, 19), o.z, c.z)
    val changed = bit(o.intensity != c.intensity, 32) + bit(o.bits != c.bits, 16) + bit(o.cls != c.cls, 8)
      + bit(o.angle != c.angle, 4) + bit(o.user != c.user, 2) + bit(o.source != c.source, 1)
    val ops = ox.ops.concat(oy.ops).concat(oz.ops).append(sym(0, (CHANGED, 0, 0), 64, changed))
      .concat(if (o.intensity != c.intensity) intOps(0, INTENSITY, 0, 16, 0, o.intensity, c.intensity).ops else [])
      .concat(if (o.bits != c.bits) [sym(0, (FLAGS, 0, o.bits), 256, c.bits)] else [])
      .concat(if (o.cls != c.cls) [sym(0, (CLASS, 0, o.cls), 256, c.cls)] else [])
      .concat(if (o.angle != c.angle) intOps(0, ANGLE, 0, 8, if (k < 3) 1 else 0, o.angle, c.angle).ops else [])
      .concat(if (o.user != c.user) [sym(0, (USERDATA, 0, o.user), 256, c.user)] else [])
      .concat(if (o.source != c.source) intOps(0, SOURCE, 0, 16, 0, o.source, c.source).ops else [])
    { s: { last: c, dx: s.dx.replaceAt(s.i, dx), dy: s.dy.replaceAt(s.i, dy), i: (s.i + 1) % 3 }, ops: ops }
  }

  // Version 2
  type S02 = { last: P0, intensity: List[int], mx: List[Med], my: List[Med], z: List[int] }
  pure def times(n: int, v: a): List[a] = range(0, n).foldl([], (l, i) => l.append(v))
  pure def first02(b: Bytes): S02 =
    { last: p0(b), intensity: times(16, 0), mx: times(16, med0), my: times(16, med0), z: times(8, 0) }
  // The contexts of y and z, from the classes of the corrections before
  pure def ctxY(n: int, k: int): int = bit(n == 1, 1) + (if (k < 20) even(k) else 20)
  pure def ctxZ(n: int, k: int): int = bit(n == 1, 1) + (if (k < 18) even(k) else 18)
  pure def point02(s: S02, b: Bytes): { s: S02, ops: List[Op] } = {
    val c = p0(b)
    val o = s.last
    val r = c.bits % 8
    val n = c.bits / 8 % 8
    val m = RETURNMAP[n][r]
    val l = returnLevel(n, r)
    val li = s.intensity[m]
    val changed = bit(o.bits != c.bits, 32) + bit(li != c.intensity, 16) + bit(o.cls != c.cls, 8)
      + bit(o.angle != c.angle, 4) + bit(o.user != c.user, 2) + bit(o.source != c.source, 1)
    val dx = wrap32(c.x - o.x)
    val dy = wrap32(c.y - o.y)
    val ox = intOps(0, DX, 0, 32, bit(n == 1, 1), median(s.mx[m]), dx)
    val oy = intOps(0, DY, 0, 32, ctxY(n, ox.k), median(s.my[m]), dy)
    val oz = intOps(0, ZZ, 0, 32, ctxZ(n, (ox.k + oy.k) / 2), s.z[l], c.z)
    val ops = [sym(0, (CHANGED, 0, 0), 64, changed)]
      .concat(if (o.bits != c.bits) [sym(0, (FLAGS, 0, o.bits), 256, c.bits)] else [])
      .concat(if (li != c.intensity) intOps(0, INTENSITY, 0, 16, min(m, 3), li, c.intensity).ops else [])
      .concat(if (o.cls != c.cls) [sym(0, (CLASS, 0, o.cls), 256, c.cls)] else [])
      .concat(if (o.angle != c.angle) [sym(0, (ANGLE, 0, c.bits / 64 % 2), 256, mod(c.angle - o.angle, 256))] else [])
      .concat(if (o.user != c.user) [sym(0, (USERDATA, 0, o.user), 256, c.user)] else [])
      .concat(if (o.source != c.source) intOps(0, SOURCE, 0, 16, 0, o.source, c.source).ops else [])
      .concat(ox.ops).concat(oy.ops).concat(oz.ops)
    { s: { last: c, intensity: s.intensity.replaceAt(m, c.intensity), mx: s.mx.replaceAt(m, addMed(s.mx[m], dx)),
           my: s.my.replaceAt(m, addMed(s.my[m], dy)), z: s.z.replaceAt(l, c.z) }, ops: ops }
  }

  // ------------------------------------------------------------ gps times
  // Version 1: one sequence of times
  type SG1 = { t: int, d: int, extreme: int }
  pure def firstG1(b: Bytes): SG1 = { t: i64(b, 0), d: 0, extreme: 0 }
  pure def pointG1(s: SG1, b: Bytes): { s: SG1, ops: List[Op] } = {
    val t = i64(b, 0)
    val d64 = wrap64(t - s.t)
    val fits = wrap32(d64) == d64
    val d = wrap32(d64)
    val raw = rawInt64(0, u64(b, 0))
    if (s.d == 0)
      if (t == s.t) { s: s, ops: [sym(0, (GPSZERO, 0, 0), 3, 0)] }
      else if (fits)
        { s: { ...s, t: t, d: d },
          ops: [sym(0, (GPSZERO, 0, 0), 3, 1)].concat(intOps(0, GPSINT, 0, 32, 0, 0, d).ops) }
      else { s: { ...s, t: t }, ops: [sym(0, (GPSZERO, 0, 0), 3, 2)].concat(raw) }
    else
      if (t == s.t) { s: s, ops: [sym(0, (GPSMULTI, 0, 0), 512, 511)] }
      else if (not(fits)) { s: { ...s, t: t }, ops: [sym(0, (GPSMULTI, 0, 0), 512, 510)].concat(raw) }
      else {
        val q = quantizeUp(d, s.d)
        val m = if (q > 509) 509 else if (q < 0) 0 else q
        val ctx = if (m == 1) 1 else if (m == 0) 2 else if (m < 10) 3 else if (m < 50) 4 else 5
        // division towards zero
        val pred = if (m == 0) (if (s.d < 0) -((-s.d) / 4) else s.d / 4) else wrap32(s.d * m)
        val ops = [sym(0, (GPSMULTI, 0, 0), 512, m)].concat(intOps(0, GPSINT, 0, 32, ctx, pred, d).ops)
        val s2 =
          if (m == 1) { t: t, d: d, extreme: 0 }
          else if (m == 0 or m == 509)
            if (s.extreme + 1 > 3) { t: t, d: d, extreme: 0 } else { t: t, d: s.d, extreme: s.extreme + 1 }
          else { ...s, t: t }
        { s: s2, ops: ops }
      }
  }

  // Versions 2 (points of formats 1, 3 to 5) and 3, 4 (layered): four sequences of times
  type SG = { t: List[int], d: List[int], extreme: List[int], last: int, next: int }
  pure def firstG(t: int): SG = { t: [t, 0, 0, 0], d: [0, 0, 0, 0], extreme: [0, 0, 0, 0], last: 0, next: 0 }
  // Codes of version 2 (same = true: a symbol stands for an unchanged time) and of the layered versions
  type Codes = { l: int, ch: int, same: bool }
  pure def zeroSym(c: Codes, v: int): Op = sym(c.l, (GPSZERO, c.ch, 0), if (c.same) 6 else 5, if (c.same) v else v - 1)
  pure def multiSym(c: Codes, v: int): Op = sym(c.l, (GPSMULTI, c.ch, 0), if (c.same) 516 else 515, v)
  pure def full(c: Codes): int = if (c.same) 512 else 511

  pure def gpsInt(c: Codes, d: int, ctx: int, pred: int): List[Op] = intOps(c.l, GPSINT, c.ch, 32, ctx, pred, d).ops

  // The difference is one of the current sequence
  pure def gpsNear(s: SG, c: Codes, t: int, d: int): { s: SG, ops: List[Op] } = {
    val i = s.last
    val ld = s.d[i]
    val s1 = { ...s, t: s.t.replaceAt(i, t) }
    if (ld == 0)
      { s: { ...s1, d: s.d.replaceAt(i, d), extreme: s.extreme.replaceAt(i, 0) }, ops: [zeroSym(c, 1)].concat(gpsInt(c, d, 0, 0)) }
    else {
      val m = quantize(d, ld)
      val isExtreme = m == 0 or m >= 500 or m <= -10
      val s2 =
        if (isExtreme)
          if (s.extreme[i] + 1 > 3) { ...s1, d: s.d.replaceAt(i, d), extreme: s.extreme.replaceAt(i, 0) }
          else { ...s1, extreme: s.extreme.replaceAt(i, s.extreme[i] + 1) }
        else if (m == 1) { ...s1, extreme: s.extreme.replaceAt(i, 0) }
        else s1
      val ops =
        if (m == 1) [multiSym(c, 1)].concat(gpsInt(c, d, 1, ld))
        else if (m >= 500) [multiSym(c, 500)].concat(gpsInt(c, d, 4, wrap32(500 * ld)))
        else if (m > 0) [multiSym(c, m)].concat(gpsInt(c, d, if (m < 10) 2 else 3, wrap32(m * ld)))
        else if (m <= -10) [multiSym(c, 510)].concat(gpsInt(c, d, 6, wrap32(-10 * ld)))
        else if (m < 0) [multiSym(c, 500 - m)].concat(gpsInt(c, d, 5, wrap32(m * ld)))
        else [multiSym(c, 0)].concat(gpsInt(c, d, 7, 0))
      { s: s2, ops: ops }
    }
  }
  pure def gpsFits(s: SG, i: int, t: int): bool = { val d = wrap64(t - s.t[i])  wrap32(d) == d }
  pure def gpsDiff(s: SG, i: int, t: int): int = wrap64(t - s.t[i])
  // What comes after a change of sequence: version 2 has a code for an unchanged time there, too
  pure def gpsCur(s: SG, c: Codes, t: int): { s: SG, ops: List[Op] } =
    if (c.same and t == s.t[s.last])
      { s: s, ops: if (s.d[s.last] == 0) [zeroSym(c, 0)] else [multiSym(c, 511)] }
    else gpsNear(s, c, t, gpsDiff(s, s.last, t))
  pure def pointG(s: SG, c: Codes, t: int): { s: SG, ops: List[Op] } = {
    val i = s.last
    val isZero = s.d[i] == 0
    if (gpsFits(s, i, t)) gpsCur(s, c, t)
    else {
      val others = [1, 2, 3].select(j => gpsFits(s, (i + j) % 4, t))
      if (others.length() > 0) {
        val j = others[0]
        val n = gpsCur({ ...s, last: (i + j) % 4 }, c, t)
        { s: n.s, ops: [if (isZero) zeroSym(c, j + 2) else multiSym(c, full(c) + j)].concat(n.ops) }
      } else {
        val hi = (t - mod(t, 2^32)) / 2^32
        val lhi = (s.t[i] - mod(s.t[i], 2^32)) / 2^32
        val nx = (s.next + 1) % 4
        { s: { t: s.t.replaceAt(nx, t), d: s.d.replaceAt(nx, 0), extreme: s.extreme.replaceAt(nx, 0), last: nx, next: nx },
          ops: [if (isZero) zeroSym(c, 2) else multiSym(c, full(c))]
            .concat(intOps(c.l, GPSINT, c.ch, 32, 8, lhi, hi).ops).concat(rawInt(c.l, mod(t, 2^32))) }
      }
    }
  }

  // ------------------------------------------------------------ colors
  type Rgb = { r: int, g: int, b: int }
  pure def rgb(b: Bytes): Rgb = { r: u16(b, 0), g: u16(b, 2), b: u16(b, 4) }
  pure def lo(v: int): int = v % 256
  pure def hi(v: int): int = v / 256
  // The bytes: red low, red high, green low, ...
  pure def bytesOf(c: Rgb): List[int] = [lo(c.r), hi(c.r), lo(c.g), hi(c.g), lo(c.b), hi(c.b)]
  // Version 1
  pure def rgb1(o: Rgb, c: Rgb): List[Op] = {
    val ob = bytesOf(o)
    val cb = bytesOf(c)
    val used = range(0, 6).foldl(0, (a, i) => a + bit(ob[i] != cb[i], 2^i))
    range(0, 6).foldl([sym(0, (RGBUSED, 0, 0), 64, used)],
      (a, i) => if (ob[i] != cb[i]) a.concat(intOps(0, RGBBYTE, 0, 8, i, ob[i], cb[i]).ops) else a)
  }
  // Versions 2 to 4
  pure def clamp(v: int): int = if (v < 0) 0 else if (v > 255) 255 else v
  pure def half(v: int): int = if (v < 0) -((-v) / 2) else v / 2
  // Byte i, when it has changed: its difference v from what is expected
  pure def rgbByte(l: int, ch: int, ob: Bytes, cb: Bytes, i: int, v: int): List[Op] =
    if (cb[i] != ob[i]) [sym(l, (RGBBYTE, ch, i), 256, mod(v, 256))] else []
  pure def rgb2(l: int, ch: int, o: Rgb, c: Rgb): List[Op] = {
    val ob = bytesOf(o)
    val cb = bytesOf(c)
    val grey = cb[0] == cb[2] and cb[0] == cb[4] and cb[1] == cb[3] and cb[1] == cb[5]
    val used = range(0, 6).foldl(0, (a, i) => a + bit(ob[i] != cb[i], 2^i)) + bit(not(grey), 64)
    // Differences of the low and high bytes of red, and their averages with those of green
    val dl = cb[0] - ob[0]
    val dh = cb[1] - ob[1]
    val el = half(dl + cb[2] - ob[2])
    val eh = half(dh + cb[3] - ob[3])
    val red = rgbByte(l, ch, ob, cb, 0, dl).concat(rgbByte(l, ch, ob, cb, 1, dh))
    val rest =
      if (grey) []
      else rgbByte(l, ch, ob, cb, 2, cb[2] - clamp(ob[2] + dl)).concat(rgbByte(l, ch, ob, cb, 4, cb[4] - clamp(ob[4] + el)))
        .concat(rgbByte(l, ch, ob, cb, 3, cb[3] - clamp(ob[3] + dh))).concat(rgbByte(l, ch, ob, cb, 5, cb[5] - clamp(ob[5] + eh)))
    val first = [sym(l, (RGBUSED, ch, 0), 128, used)]
    first.concat(red).concat(rest)
  }

  // ------------------------------------------------------------ near infrared
  pure def nir(l: int, ch: int, o: int, c: int): List[Op] =
    [sym(l, (NIRUSED, ch, 0), 4, bit(lo(o) != lo(c), 1) + bit(hi(o) != hi(c), 2))]
      .concat(if (lo(o) != lo(c)) [sym(l, (NIRBYTE, ch, 0), 256, mod(lo(c) - lo(o), 256))] else [])
      .concat(if (hi(o) != hi(c)) [sym(l, (NIRBYTE, ch, 1), 256, mod(hi(c) - hi(o), 256))] else [])

  // ------------------------------------------------------------ wave packets
  type Wp = { index: int, offset: int, size: int, ret: int, x: int, y: int, z: int }
  pure def wp(b: Bytes): Wp =
    { index: b[0], offset: u64(b, 1), size: u32(b, 9), ret: i32(b, 13), x: i32(b, 17), y: i32(b, 21), z: i32(b, 25) }
  type SWp = { diff: int, sym: int }
  pure val wp0: SWp = { diff: 0, sym: 0 }
  pure def pointWp(l: int, ch: int, s: SWp, o: Wp, c: Wp): { s: SWp, ops: List[Op] } = {
    val d64 = wrap64(c.offset - o.offset)
    val d = wrap32(d64)
    val sy = if (d != d64) 3 else if (d == 0) 0 else if (d == o.size) 1 else 2
    val off = if (sy == 2) intOps(l, WPOFFSET, ch, 32, 0, s.diff, d).ops else if (sy == 3) rawInt64(l, c.offset) else []
    { s: { diff: if (sy == 2) d else s.diff, sym: sy },
      ops: [sym(l, (WPINDEX, ch, 0), 256, c.index), sym(l, (WPOFFSYM, ch, s.sym), 4, sy)].concat(off)
        .concat(intOps(l, WPSIZE, ch, 32, 0, wrap32(o.size), wrap32(c.size)).ops)
        .concat(intOps(l, WPRETURN, ch, 32, 0, o.ret, c.ret).ops)
        .concat(intOps(l, WPXYZ, ch, 32, 0, o.x, c.x).ops)
        .concat(intOps(l, WPXYZ, ch, 32, 1, o.y, c.y).ops)
        .concat(intOps(l, WPXYZ, ch, 32, 2, o.z, c.z).ops) }
  }

  // ------------------------------------------------------------ extra bytes
  // Version 1: each byte is an integer of 8 bits in its own context
  pure def extra1(o: Bytes, c: Bytes): List[Op] =
    range(0, c.length()).foldl([], (a, i) => a.concat(intOps(0, EXTRA, 0, 8, i, o[i], c[i]).ops))
  // Version 2: the difference is a symbol
  pure def extra2(o: Bytes, c: Bytes): List[Op] =
    range(0, c.length()).foldl([], (a, i) => a.append(sym(0, (EXTRA, 0, i), 256, mod(c[i] - o[i], 256))))
  // Versions 3 and 4: each byte has its own layer
  pure def extra3(l: int, ch: int, o: Bytes, c: Bytes): List[Op] =
    range(0, c.length()).foldl([], (a, i) => a.append(sym(l + i, (EXTRA, ch, i), 256, mod(c[i] - o[i], 256))))

  // ------------------------------------------------------------ points of formats 6 to 10
  type P6 = { x: int, y: int, z: int, intensity: int, r: int, n: int, flags: int, ch: int, cls: int, user: int, angle: int,
              source: int, t: int }
  pure def p6(b: Bytes): P6 = {
    x: i32(b, 0), y: i32(b, 4), z: i32(b, 8), intensity: u16(b, 12), r: b[14] % 16, n: b[14] / 16,
    // edge of flight line, scan direction, classification flags
    flags: b[15] / 128 * 32 + b[15] / 64 % 2 * 16 + b[15] % 16,
    ch: b[15] / 16 % 4, cls: b[16], user: b[17], angle: i16(b, 18), source: u16(b, 20), t: i64(b, 22) }
  // Whether two times differ, as floating point numbers or in their bits
  pure def timeChanged(a: int, b: int): bool = a != b or isNan(a)
  pure def isNan(a: int): bool = mod(a, 2^63) > 2047 * 2^52

  pure val MAP6 = [
    [0, 1, 2, 3, 4, 5, 3, 4, 4, 5, 5, 5, 5, 5, 5, 5],
    [1, 0, 1, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3],
    [2, 1, 2, 4, 4, 4, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3],
    [3, 3, 4, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4],
    [4, 3, 4, 4, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4],
    [5, 3, 4, 4, 4, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4],
    [3, 3, 4, 4, 4, 4, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4],
    [4, 3, 4, 4, 4, 4, 4, 5, 4, 4, 4, 4, 4, 4, 4, 4],
    [4, 3, 4, 4, 4, 4, 4, 4, 5, 4, 4, 4, 4, 4, 4, 4],
    [5, 3, 4, 4, 4, 4, 4, 4, 4, 5, 4, 4, 4, 4, 4, 4],
    [5, 3, 4, 4, 4, 4, 4, 4, 4, 4, 5, 4, 4, 4, 4, 4],
    [5, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 4, 4, 4],
    [5, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 4, 4],
    [5, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 4],
    [5, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5],
    [5, 3, 3, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5] ]
  pure def level6(n: int, r: int): int = min(abs(n - r), 7)

  // What one scanner channel remembers
  type C6 = { last: P6, gpsChanged: bool, g: SG, intensity: List[int], mx: List[Med], my: List[Med], z: List[int] }
  pure def newC6(p: P6): C6 = { last: p, gpsChanged: false, g: firstG(p.t), intensity: times(8, p.intensity),
    mx: times(12, med0), my: times(12, med0), z: times(8, p.z) }
  type S6 = { cur: int, cs: int -> C6 }
  pure def first6(b: Bytes): S6 = { val p = p6(b)  { cur: p.ch, cs: Map(p.ch -> newC6(p)) } }

  // Layers: 0 channel, returns, x and y; 1 z; 2 classification; 3 flags; 4 intensity; 5 scan angle; 6 user data;
  // 7 point source; 8 gps time; 9 colors; 10 near infrared; 11 wave packets; 12.. extra bytes
  // changed: the layers among 2..8 in which this point differs from the one it is predicted from
  pure def point6(s: S6, b: Bytes): { s: S6, ops: List[Op], changed: Set[int] } = {
    val c = p6(b)
    val old = s.cs.get(s.cur)
    // Contexts from the last point, whatever its channel
    val lpr = bit(old.last.r == 1, 1) + bit(old.last.r >= old.last.n, 2) + bit(old.gpsChanged, 4)
    val chChanged = c.ch != s.cur
    // The point it is predicted from: the last of the same channel, if there is one
    val ctx = if (s.cs.keys().contains(c.ch)) s.cs.get(c.ch) else newC6(old.last)
    val o = ctx.last
    val gps = timeChanged(o.t, c.t)
    val dr = mod(c.r - o.r, 16)
    val rcode = if (dr == 0) 0 else if (dr == 1) 1 else if (dr == 15) 2 else 3
    val changed = bit(chChanged, 64) + bit(o.source != c.source, 32) + bit(gps, 16) + bit(o.angle != c.angle, 8)
      + bit(o.n != c.n, 4) + rcode
    val ch = c.ch
    val a1 = [sym(0, (CHANGED, s.cur, lpr), 128, changed)]
      .concat(if (chChanged) [sym(0, (CHANNEL, s.cur, 0), 3, mod(c.ch - s.cur, 4) - 1)] else [])
      .concat(if (o.n != c.n) [sym(0, (NRETURNS, ch, o.n), 16, c.n)] else [])
      .concat(if (rcode != 3) [] else if (gps) [sym(0, (RETURN, ch, o.r), 16, c.r)]
              else [sym(0, (RETURNSAME, ch, 0), 13, dr - 2)])
    val m = MAP6[c.n][c.r] * 2 + bit(gps, 1)
    val l = level6(c.n, c.r)
    val cpr = bit(c.r == 1, 2) + bit(c.r >= c.n, 1)
    val dx = wrap32(c.x - o.x)
    val dy = wrap32(c.y - o.y)
    val ox = intOps(0, DX, ch, 32, bit(c.n == 1, 1), median(ctx.mx[m]), dx)
    val oy = intOps(0, DY, ch, 32, ctxY(c.n, ox.k), median(ctx.my[m]), dy)
    val oz = intOps(1, ZZ, ch, 32, ctxZ(c.n, (ox.k + oy.k) / 2), ctx.z[l], c.z)
    val ocls = [sym(2, (CLASS, ch, o.cls % 32 * 2 + bit(cpr == 3, 1)), 256, c.cls)]
    val oflags = [sym(3, (FLAGS, ch, o.flags), 64, c.flags)]
    val ii = cpr * 2 + bit(gps, 1)
    val oint = intOps(4, INTENSITY, ch, 16, cpr, ctx.intensity[ii], c.intensity).ops
    val oang = if (o.angle != c.angle) intOps(5, ANGLE, ch, 16, bit(gps, 1), o.angle, c.angle).ops else []
    val ouser = [sym(6, (USERDATA, ch, o.user / 4), 256, c.user)]
    val osrc = if (o.source != c.source) intOps(7, SOURCE, ch, 16, 0, o.source, c.source).ops else []
    val g = if (gps) pointG(ctx.g, { l: 8, ch: ch, same: false }, c.t) else { s: ctx.g, ops: [] }
    val ctx2 = { last: c, gpsChanged: gps, g: g.s, intensity: ctx.intensity.replaceAt(ii, c.intensity),
                 mx: ctx.mx.replaceAt(m, addMed(ctx.mx[m], dx)), my: ctx.my.replaceAt(m, addMed(ctx.my[m], dy)),
                 z: ctx.z.replaceAt(l, c.z) }
    { s: { cur: ch, cs: s.cs.put(ch, ctx2) },
      ops: a1.concat(ox.ops).concat(oy.ops).concat(oz.ops).concat(ocls).concat(oflags).concat(oint).concat(oang)
        .concat(ouser).concat(osrc).concat(g.ops),
      changed: Set((2, o.cls != c.cls), (3, o.flags != c.flags), (4, o.intensity != c.intensity), (5, o.angle != c.angle),
        (6, o.user != c.user), (7, o.source != c.source), (8, gps)).filter(p => p._2).map(p => p._1) }
  }
}
