// A chunk of compressed points: the bytes LASzip defines for the points of a chunk, for every layout.
module chunk {
  import coder.* from "./coder"
  import fields.* from "./fields"

  // fmt: point format 0..10; ver: version of the items (1 or 2; 3 or 4 from format 6 on); eb: number of extra bytes
  type Layout = { fmt: int, ver: int, eb: int }
  pure def layered(l: Layout): bool = l.fmt >= 6
  pure def hasGps(l: Layout): bool = Set(1, 3, 4, 5).contains(l.fmt)
  pure def hasRgb(l: Layout): bool = Set(2, 3, 5, 7, 8, 10).contains(l.fmt)
  pure def hasNir(l: Layout): bool = l.fmt == 8 or l.fmt == 10
  pure def hasWp(l: Layout): bool = l.fmt == 4 or l.fmt == 5 or l.fmt == 9 or l.fmt == 10
  pure def atGps(l: Layout): int = 20
  pure def atRgb(l: Layout): int = (if (layered(l)) 30 else 20) + bit(hasGps(l), 8)
  pure def atNir(l: Layout): int = atRgb(l) + bit(hasRgb(l), 6)
  pure def atWp(l: Layout): int = atNir(l) + bit(hasNir(l), 2)
  pure def atEb(l: Layout): int = atWp(l) + bit(hasWp(l), 29)
  pure def pointSize(l: Layout): int = atEb(l) + l.eb
  pure def from(b: Bytes, i: int): Bytes = b.slice(i, b.length())

  // The last values of the items other than the point itself
  type Aux = { rgb: Rgb, nir: int, wp: Wp, eb: Bytes }
  pure val rgbOf0: Rgb = { r: 0, g: 0, b: 0 }
  pure val wpOf0: Wp = { index: 0, offset: 0, size: 0, ret: 0, x: 0, y: 0, z: 0 }
  pure def aux(l: Layout, b: Bytes): Aux = {
    rgb: if (hasRgb(l)) rgb(from(b, atRgb(l))) else rgbOf0,
    nir: if (hasNir(l)) u16(b, atNir(l)) else 0,
    wp: if (hasWp(l)) wp(from(b, atWp(l))) else wpOf0,
    eb: b.slice(atEb(l), atEb(l) + l.eb) }

  type Chunk = { lay: Layout, n: int, first: Bytes, s1: S01, s2: S02, g1: SG1, g: SG, s6: S6,
    // items other than the point: last values of each context, their state, and the current context
    auxs: int -> Aux, swps: int -> SWp, cx: int,
    // layers in which something changed
    changed: Set[int], enc: int -> Enc }

  pure val zeros: Bytes = times(64, 0)
  pure def empty(l: Layout): Chunk = { lay: l, n: 0, first: [], s1: first01(zeros), s2: first02(zeros), g1: firstG1(zeros),
    g: firstG(0), s6: first6(zeros), auxs: Map(), swps: Map(), cx: 0, changed: Set(0, 1), enc: Map() }

  pure def add(c: Chunk, b: Bytes): Chunk = if (c.n == 0) addFirst(c, b) else if (layered(c.lay)) addLayered(c, b) else addPlain(c, b)

  // The first point is stored as it is
  pure def addFirst(c: Chunk, b: Bytes): Chunk = {
    val l = c.lay
    val p = if (layered(l)) first6(b) else c.s6
    val cx = if (layered(l)) p.cur else 0
    { ...c, n: 1, first: b, s1: first01(b), s2: first02(b),
      g1: if (hasGps(l)) firstG1(from(b, atGps(l))) else c.g1,
      g: if (hasGps(l)) firstG(i64(b, atGps(l))) else c.g,
      s6: p, auxs: Map(cx -> aux(l, b)), swps: Map(cx -> wp0), cx: cx,
      enc: if (layered(l)) Map(0 -> encInit, 1 -> encInit) else Map(0 -> encInit) }
  }

  // Formats 0 to 5: the fields of a point one after the other
  pure def addPlain(c: Chunk, b: Bytes): Chunk = {
    val l = c.lay
    val o = c.auxs.get(0)
    val x = aux(l, b)
    val r1 = point01(c.s1, b)
    val r2 = point02(c.s2, b)
    val q1 = pointG1(c.g1, if (hasGps(l)) from(b, atGps(l)) else zeros)
    val q2 = pointG(c.g, { l: 0, ch: 0, same: true }, if (hasGps(l)) i64(b, atGps(l)) else 0)
    val w = pointWp(0, 0, c.swps.get(0), o.wp, x.wp)
    val ops = (if (l.ver == 1) r1.ops else r2.ops)
      .concat(if (not(hasGps(l))) [] else if (l.ver == 1) q1.ops else q2.ops)
      .concat(if (not(hasRgb(l))) [] else if (l.ver == 1) rgb1(o.rgb, x.rgb) else rgb2(0, 0, o.rgb, x.rgb))
      .concat(if (hasWp(l)) w.ops else [])
      .concat(if (l.ver == 1) extra1(o.eb, x.eb) else extra2(o.eb, x.eb))
    { ...c, n: c.n + 1, s1: if (l.ver == 1) r1.s else c.s1, s2: if (l.ver == 1) c.s2 else r2.s,
      g1: q1.s, g: q2.s, auxs: Map(0 -> x), swps: Map(0 -> w.s), enc: stepAll(c.enc, ops) }
  }

  // Formats 6 to 10: the scanner channel of the point is the context of the other items
  pure def addLayered(c: Chunk, b: Bytes): Chunk = {
    val l = c.lay
    val r = point6(c.s6, b)
    val ch = r.s.cur
    // In version 3, the other items are told of the channel only when it has changed
    val cx = if (l.ver == 4 or ch != c.s6.cur) ch else 0
    val isNew = not(c.auxs.keys().contains(cx))
    // The context whose last values are used and updated: version 3 stays with the one before when coming back to a context
    val li = if (l.ver == 4 or isNew) cx else c.cx
    val o = if (isNew) c.auxs.get(c.cx) else c.auxs.get(li)
    val x = aux(l, b)
    val sw = if (isNew) wp0 else c.swps.get(cx)
    val w = pointWp(11, cx, sw, o.wp, x.wp)
    val ops = r.ops
      .concat(if (hasRgb(l)) rgb2(9, cx, o.rgb, x.rgb) else [])
      .concat(if (hasNir(l)) nir(10, cx, o.nir, x.nir) else [])
      .concat(if (hasWp(l)) w.ops else [])
      .concat(extra3(12, cx, o.eb, x.eb))
    val changed = c.changed.union(r.changed)
      .union(if (o.rgb != x.rgb) Set(9) else Set()).union(if (o.nir != x.nir) Set(10) else Set())
      .union(if (o.wp != x.wp) Set(11) else Set())
      .union(range(0, l.eb).foldl(Set(), (a, i) => if (o.eb[i] != x.eb[i]) a.union(Set(12 + i)) else a))
    { ...c, n: c.n + 1, s6: r.s, auxs: c.auxs.put(li, x), swps: c.swps.put(cx, w.s), cx: cx, changed: changed,
      enc: stepAll(c.enc, ops) }
  }

  // ------------------------------------------------------------ bytes
  pure def bytes(b: Bytes): List[Part] = b.foldl([], (a, v) => a.append({ v: v, n: 1 }))
  pure def layers(l: Layout): List[int] =
    [0, 1, 2, 3, 4, 5, 6, 7, 8].concat(if (hasRgb(l)) [9] else []).concat(if (hasNir(l)) [10] else [])
      .concat(if (hasWp(l)) [11] else []).concat(range(12, 12 + l.eb))
  pure def layerBytes(c: Chunk, i: int): List[Part] =
    if (c.changed.contains(i)) finish(c.enc.get(i)) else []
  pure def chunkBytes(c: Chunk): List[Part] =
    if (layered(c.lay)) {
      val ls = layers(c.lay)
      val ps = ls.foldl([], (a, i) => a.append(layerBytes(c, i)))
      val sizes = ps.foldl([], (a, p) => a.concat(bytes(le(4, sizeOf(p)))))
      ps.foldl(bytes(c.first).concat(bytes(le(4, c.n))).concat(sizes), (a, p) => a.concat(p))
    } else bytes(c.first).concat(finish(c.enc.get(0)))
  pure def encode(l: Layout, ps: List[Bytes]): List[Part] = chunkBytes(ps.foldl(empty(l), (c, b) => add(c, b)))
}
