/// Points of the two curves by their coordinates, and their encodings (property C06).
///
/// E: y^2 = x^3 + 4 over Fp and E': y^2 = x^3 + 4(u + 1) over Fp2.  Everything is written for a field of
/// degree d = 1 or 2 with the operations of the tower.  Strings of bytes are integers in big-endian order.
module pointAlg {
  import prims.* from "./prims"
  import field(Q = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787).* from "./prims"
  import towerAlg.* from "./tower"

  pure val SUBGROUP = 52435875175126190479447740508185965837690552500527637822603658699938581184513
  pure val H1 = 0x396c8c005555e1568c00aaab0000aaab
  pure val H2 = 305502333931268344200999753193121504214466019254188142667664032982267604182971884026507427359259977847832272839041616661285803823378372096355777062779109
  /// the order of every point of the first curve divides E1 times that of the subgroup; small factors of both cofactors
  pure val E1 = 15132376222941642753
  pure val FACTORS1 = [3, 11, 10177, 859267, 52437899]
  pure val FACTORS2 = [169, 529, 2713, 11953, 262069]

  type Point = { inf: bool, x: List[int], y: List[int] }
  pure def infinity(d: int): Point = { inf: true, x: tzero(d), y: tone(d) }
  pure val GEN1: Point = { inf: false,
    x: [0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb],
    y: [0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1] }
  pure val GEN2: Point = { inf: false,
    x: [0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8,
        0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e],
    y: [0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801,
        0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be] }
  pure def gen(d: int): Point = if (d == 1) GEN1 else GEN2
  pure def rhs(x: List[int]): List[int] = tadd(tmul(x, tmul(x, x)), rep(x.length(), 4))
  pure def onCurve(x: List[int], y: List[int]): bool = tmul(y, y) == rhs(x)

  pure def sqrt1(a: int): int = fpow(a, (ORD + 1) / 4)
  /// a root of a square
  pure def sqrtT(a: List[int]): List[int] =
    if (a.length() == 1) [sqrt1(a[0])]
    else if (a[1] == 0) (if (fIsSquare(a[0])) [sqrt1(a[0]), 0] else [0, sqrt1(fneg(a[0]))])
    else {
      val half = (ORD + 1) / 2
      val s = sqrt1(norm2(a))
      val t0 = fmul(fadd(a[0], s), half)
      val t = if (fIsSquare(t0)) t0 else fmul(fsub(a[0], s), half)
      val r = sqrt1(t)
      [r, fmul(fmul(a[1], half), finv(r))]
    }
  pure def squareT(a: List[int]): bool = if (a.length() == 1) fIsSquare(a[0]) else isSquare2(a)

  // ---- group law, in Jacobian coordinates (x z^2, y z^3, z); z = 0 is infinity
  pure def jdouble(p: (List[int], List[int], List[int])): (List[int], List[int], List[int]) = {
    val a = tmul(p._1, p._1)
    val b = tmul(p._2, p._2)
    val c = tmul(b, b)
    val xb = tmul(p._1, b)
    val d2 = tadd(tadd(xb, xb), tadd(xb, xb))
    val e = tadd(a, tadd(a, a))
    val x = tsub(tmul(e, e), tadd(d2, d2))
    val c2 = tadd(c, c)
    val c8 = tadd(tadd(c2, c2), tadd(c2, c2))
    val yz = tmul(p._2, p._3)
    (x, tsub(tmul(e, tsub(d2, x)), c8), tadd(yz, yz))
  }
  /// q is affine and not infinite
  pure def jadd(p: (List[int], List[int], List[int]), q: Point): (List[int], List[int], List[int]) =
    if (isZero(p._3)) (q.x, q.y, tone(q.x.length())) else {
      val z2 = tmul(p._3, p._3)
      val h = tsub(tmul(q.x, z2), p._1)
      val r = tsub(tmul(q.y, tmul(z2, p._3)), p._2)
      if (isZero(h)) (if (isZero(r)) jdouble(p) else (q.x, q.y, tzero(q.x.length())))
      else {
        val h2 = tmul(h, h)
        val h3 = tmul(h2, h)
        val v = tmul(p._1, h2)
        val x = tsub(tsub(tmul(r, r), h3), tadd(v, v))
        (x, tsub(tmul(r, tsub(v, x)), tmul(p._2, h3)), tmul(p._3, h))
      }
    }
  pure def affine(p: (List[int], List[int], List[int])): Point =
    if (isZero(p._3)) infinity(p._3.length()) else {
      val zi = tinv(p._3)
      val z2 = tmul(zi, zi)
      { inf: false, x: tmul(p._1, z2), y: tmul(p._2, tmul(z2, zi)) }
    }
  /// the binary digits of k, highest first
  pure def digits(k: int): List[int] = {
    val l = range(0, 1200).foldl((List(), k), (st, i) => if (st._2 == 0) st else (st._1.append(st._2 % 2), st._2 / 2))._1
    rev(l)
  }
  pure def timesJ(k: int, p: Point): (List[int], List[int], List[int]) =
    if (p.inf) (p.x, p.y, tzero(p.x.length())) else
    digits(k).foldl((p.x, p.y, tzero(p.x.length())), (acc, b) => {
      val e = if (isZero(acc._3)) acc else jdouble(acc)
      if (b == 1) jadd(e, p) else e
    })
  pure def times(k: int, p: Point): Point = affine(timesJ(k, p))
  pure def plus(p: Point, q: Point): Point =
    if (q.inf) p else if (p.inf) q else affine(jadd((p.x, p.y, tone(p.x.length())), q))
  pure def inSubgroup(p: Point): bool = p.inf or isZero(timesJ(SUBGROUP, p)._3)

  /// a point with a coordinate near the given one
  pure def near(x0: List[int]): Point = {
    val x = range(0, 60).foldl((x0, false), (st, i) =>
      if (st._2) st else if (squareT(rhs(st._1))) (st._1, true) else (tadd(st._1, tone(x0.length())), false))._1
    { inf: false, x: x, y: sqrtT(rhs(x)) }
  }

  // ---- encodings
  pure val CHUNK = 2^384
  /// coordinates in the order in which they are written: the upper coefficient first
  pure def written(x: List[int]): List[int] = rev(x)
  pure def join(l: List[int]): int = l.foldl(0, (acc, c) => acc * CHUNK + c)
  pure def split(s: int, n: int): List[int] =
    rev(range(0, n).foldl((List(), s), (st, i) => (st._1.append(st._2 % CHUNK), st._2 / CHUNK))._1)
  pure def bits(d: int, compressed: bool): int = if (compressed) 384 * d else 768 * d
  pure def withFlags(d: int, compressed: bool, flags: int, body: int): int = {
    val b = 2^(bits(d, compressed) - 3)
    flags * b + body % b
  }
  pure def encode(p: Point, compressed: bool): int = {
    val d = p.x.length()
    if (compressed)
      (if (p.inf) withFlags(d, true, 6, 0) else withFlags(d, true, 4 + b2i(larger(p.y)), join(written(p.x))))
    else (if (p.inf) withFlags(d, false, 2, 0) else withFlags(d, false, 0, join(written(p.x).concat(written(p.y)))))
  }
  /// (accepted, point) of a string; without the subgroup test if unchecked
  pure def decode(d: int, compressed: bool, s: int, checked: bool): (bool, Point) = {
    val b = 2^(bits(d, compressed) - 3)
    val flags = s / b
    val body = s % b
    val c = flags / 4
    val i = (flags / 2) % 2
    val o = flags % 2
    val parts = split(body, if (compressed) d else 2 * d)
    val fits = parts.foldl(true, (acc, v) => acc and v < ORD)
    val x = rev(parts.slice(0, d))
    if (c != b2i(compressed) or (i == 1 and o == 1) or (not(compressed) and o == 1)) (false, infinity(d))
    else if (i == 1) (body == 0, infinity(d))
    else if (not(fits)) (false, infinity(d))
    else if (compressed) {
      val r = rhs(x)
      if (not(squareT(r))) (false, infinity(d)) else {
        val y0 = sqrtT(r)
        val y = if (larger(y0) == (o == 1)) y0 else tneg(y0)
        val p = { inf: false, x: x, y: y }
        (not(checked) or inSubgroup(p), p)
      }
    } else {
      val p = { inf: false, x: x, y: rev(parts.slice(d, 2 * d)) }
      (onCurve(p.x, p.y) and inSubgroup(p), p)
    }
  }
}

module codecMachine {
  import prims.* from "./prims"
  import field(Q = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787).* from "./prims"
  import towerAlg.* from "./tower"
  import pointAlg.* from "./codec"

  var op: Op
  /// the last accepted string was the encoding of its point
  var good: bool

  action init = all { op' = NoOp, good' = true }

  /// a point: multiples of the generator, any point of the curve, of the curve but in the wrong subgroup, a sum
  /// of one of each, and one moved to the right subgroup
  pure def pointOf(d: int, c: int, p: int): Point = {
    val x0 = if (d == 1) [p % ORD] else [p % ORD, prand(p, 1)[0]]
    val small = if (d == 1) [p % 1000] else [p % 1000, p / 1000 % 5]
    if (c == 0) times(p % 9, gen(d))
    else if (c == 1) times(SUBGROUP - 1 - p % 5, gen(d))
    else if (c == 2) times(p % SUBGROUP, gen(d))
    else if (c == 3) near(small)
    else if (c == 4) near(x0)
    else if (c == 5) times(SUBGROUP, near(x0))
    else if (c == 6) plus(times(p % 1000, gen(d)), times(SUBGROUP, near(x0)))
    // of order 3 (or, in the second group, of order 13)
    else if (c == 7) (if (d == 1) { inf: false, x: [0], y: [2] } else times(SUBGROUP * (H2 / 169), near(x0)))
    // an element of the subgroup plus a point of small order, for every small prime factor of the cofactor
    else if (c == 8) plus(times((p / 8) % 4, gen(d)), times(SUBGROUP * (if (d == 1) E1 / FACTORS1[p % 5] else H2 / FACTORS2[p % 5]), near(x0)))
    else times(if (d == 1) H1 else H2, near(x0))
  }
  /// a string made from the encoding of a point
  pure def mutate(d: int, compressed: bool, p: Point, how: int, q: int): int = {
    val s = encode(p, compressed)
    val n = bits(d, compressed)
    val b = 2^(n - 3)
    if (how <= 2) s
    else if (how == 3) withFlags(d, compressed, q % 8, s)
    else if (how == 4) (if (s / 2^(q % n) % 2 == 0) s + 2^(q % n) else s - 2^(q % n))
    // one coordinate not reduced
    else if (how == 5) { val k = q % (if (compressed) d else 2 * d)
      withFlags(d, compressed, s / b, s % b + ORD * CHUNK^k) }
    // infinity with something else in the string
    else if (how == 6) withFlags(d, compressed, if (compressed) 6 else 2, 2^(q % (n - 3)))
    else if (how == 7) withFlags(d, compressed, q % 8, 0)
    else if (how == 8) encode({ inf: false, x: p.x, y: if (q % 3 == 0) p.x else if (q % 3 == 1) tneg(p.y) else tadd(p.y, tone(d)) }, compressed)
    // the characteristic, and strings of ones, in one coordinate
    else if (how == 9) { val k = q % (if (compressed) d else 2 * d)
      withFlags(d, compressed, s / b, (s % b) - ((s % b) / CHUNK^k % CHUNK) * CHUNK^k + (ORD + q / 7 % 3 - 1) * CHUNK^k) }
    else if (how == 10) withFlags(d, compressed, s / b, b - 1)
    // the other format's flag, with the coordinates of this one
    else if (how == 11) withFlags(d, compressed, (s / b + 4) % 8, s)
    else q % 2^n
  }
  pure def shown(a: (bool, Point)): List[List[int]] = [[encode(a._2, true)], [encode(a._2, false)]]

  action decodeAny = {
    nondet d = 1.to(2).oneOf()
    nondet f = 0.to(1).oneOf()
    nondet c = 0.to(14).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet how = 0.to(12).oneOf()
    nondet q = 0.to(2^1536 - 1).oneOf()
    val s = mutate(d, f == 1, pointOf(d, if (c > 9) c % 3 else c, p), how, q)
    val r = decode(d, f == 1, s, true)
    all {
      op' = if (r._1) okOp("enc.decode", [d, f], [[s]], shown(r)) else errOp("enc.decode", [d, f], [[s]]),
      good' = (not(r._1) or encode(r._2, f == 1) == s),
    }
  }
  /// compressed strings without the subgroup test
  action decodeUnchecked = {
    nondet d = 1.to(2).oneOf()
    nondet c = 3.to(8).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet how = 0.to(7).oneOf()
    nondet q = 0.to(2^768 - 1).oneOf()
    val s = mutate(d, true, pointOf(d, c, p), how, q)
    val r = decode(d, true, s, false)
    all {
      op' = if (r._1) okOp("enc.unchecked", [d], [[s]], shown(r)) else errOp("enc.unchecked", [d], [[s]]),
      good' = (not(r._1) or encode(r._2, true) == s),
    }
  }
  /// the curve and subgroup tests
  action tests = {
    nondet d = 1.to(2).oneOf()
    nondet c = 0.to(9).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet how = 0.to(3).oneOf()
    val a = pointOf(d, c, p)
    val y = if (how == 0) tadd(a.y, tone(d)) else if (how == 1) tneg(a.y) else a.y
    val on = a.inf or onCurve(a.x, y)
    val s = if (a.inf) encode(a, false) else encode({ inf: false, x: a.x, y: y }, false)
    val sub = on and inSubgroup({ inf: a.inf, x: a.x, y: y })
    all {
      op' = okOp("enc.tests", [d], [[s]], [[b2i(on), b2i(sub)]]),
      good' = (a.inf or onCurve(a.x, a.y)),
    }
  }
  /// encodings of group elements given by their logarithm
  action encodeLog = {
    nondet d = 1.to(2).oneOf()
    nondet c = 0.to(2).oneOf()
    nondet p = 0.to(SUBGROUP - 1).oneOf()
    nondet how = 0.to(4).oneOf()
    val k = if (c == 0) p % 9 else if (c == 1) SUBGROUP - 1 - p % 5 else p
    val a = times(k, gen(d))
    all {
      op' = okOp("enc.encode", [d, how], [[k]], [[encode(a, true)], [encode(a, false)]]),
      good' = (decode(d, true, encode(a, true), true) == (true, a) and decode(d, false, encode(a, false), true) == (true, a)),
    }
  }
  action step = {
    nondet kind = 0.to(9).oneOf()
    if (kind <= 5) decodeAny
    else if (kind == 6) decodeUnchecked
    else if (kind <= 8) tests
    else encodeLog
  }
  /// whatever is accepted is the encoding of the point, and encodings are accepted
  val canonical = good
}

module codecTest {
  import prims.* from "./prims"
  import field(Q = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787).* from "./prims"
  import towerAlg.* from "./tower"
  import pointAlg.* from "./codec"

  run groupOrderTest = all {
    assert(onCurve(GEN1.x, GEN1.y)),
    assert(onCurve(GEN2.x, GEN2.y)),
    assert(inSubgroup(GEN1)),
    assert(inSubgroup(GEN2)),
    // the curves have h r points
    assert(times(H1 * SUBGROUP, near([4711])).inf),
    assert(not(times(H1, near([4711])).inf)),
    assert(times(H2 * SUBGROUP, near([4711, 12])).inf),
    assert(times(E1 * SUBGROUP, near([4711])).inf),
    assert(FACTORS1.foldl(1, (s, f) => s * f) == E1),
    assert(FACTORS2.foldl(true, (s, f) => s and H2 % f == 0)),
    assert(not(times(SUBGROUP * (E1 / 11), near([4711])).inf)),
    assert(not(times(SUBGROUP * (H2 / 2713), near([4711, 12])).inf)),
    assert(not(inSubgroup(near([4711])))),
    assert(not(inSubgroup(near([4711, 12])))),
    assert(times(3, { inf: false, x: [0], y: [2] }).inf),
    assert(plus(GEN1, times(2, GEN1)) == times(3, GEN1)),
    assert(plus(GEN2, times(SUBGROUP - 1, GEN2)).inf),
    assert(encode(GEN1, true) == 0x97f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb),
  }
}
