/// Trusted setup, commitments, openings and their verification (properties C08, C09, C17 - C20).
///
/// A group element is its discrete logarithm.  A setup is the secret s, so committing is evaluating at s, and
/// verification is an equation between field elements.

module kzgalg {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import dft.* from "./fft"

  /// quotient of p by X^n - c
  pure def quotient(p: List[int], n: int, c: int): List[int] = {
    val l = norm(p)
    val m = max(0, l.length() - n)
    // from the top: q_i = p_{i+n} + c q_{i+n}
    val top = range(0, m).foldl(List(), (acc, j) =>
      acc.append(fadd(l[l.length() - 1 - j], if (j >= n) fmul(c, acc[j - n]) else 0)))
    rev(top)
  }
  /// the commitment to p and the opening of p on the n points of the coset of x, under the secret s
  pure def commitment(p: List[int], s: int): int = peval(p, s)
  pure def opening(p: List[int], x: int, n: int, s: int): int = peval(quotient(p, n, fpow(x, n)), s)
  /// the n points of the coset: x w^i
  pure def coset(x: int, n: int): List[int] = scaleBy(powers(root(log2(n)), n), x)
  pure def valuesOn(p: List[int], x: int, n: int): List[int] = coset(x, n).foldl(List(), (acc, z) => acc.append(peval(p, z)))
  /// the value at s of the polynomial with fewer than n coefficients that has the given values on the coset of x
  pure def interpolated(values: List[int], x: int, s: int): int = peval(dftInv(values), fdiv(s, x))
  /// the two verification equations
  pure def validSingle(com: int, proof: int, x: int, y: int, s: int): bool = fsub(com, y) == fmul(proof, fsub(s, x))
  pure def validMulti(com: int, proof: int, x: int, values: List[int], s: int): bool = {
    val n = values.length()
    fsub(com, interpolated(values, x, s)) == fmul(proof, fsub(fpow(s, n), fpow(x, n)))
  }
}

/// C08
module setupMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import dft.* from "./fft"
  import kzgalg.* from "./kzg"

  var secret: int
  var npts: int
  var scale: int
  var op: Op
  action init = all { secret' = 7, npts' = 3, scale' = 1, op' = okOp("kzg.setup", [1, 3], [[7]], [[1, 7, 49]]) }
  action keep(o: Op): bool = all { secret' = secret, npts' = npts, scale' = scale, op' = o }

  action setup = {
    nondet n = 2.to(40).oneOf()
    nondet k = 0.to(6).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val s = element(c, p)
    all { secret' = s, npts' = n, scale' = k, op' = okOp("kzg.setup", [k, n], [[s]], [powers(s, n)]) }
  }
  /// setups of any npts, also none, alone
  action generate = {
    nondet n = 0.to(70).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val s = element(c, p)
    keep(okOp("kzg.generate", [n], [[s]], [powers(s, n)]))
  }
  /// an integer that is not below the group order is no secret
  action noSecret = {
    nondet n = 1.to(5).oneOf()
    nondet c = 0.to(4).oneOf()
    nondet p = 0.to(2^256 - 1).oneOf()
    val s = if (c == 0) ORD else if (c == 1) ORD + 1 else if (c == 2) 2^256 - 1 else if (c == 3) ORD + p % 2^64 else max(p, ORD)
    keep(refOp("kzg.generate", [n], [[s]]))
  }
  /// the points are used as they are: the commitment to X^i is point i
  action unit = {
    nondet i = 0.to(39).oneOf()
    nondet f = 0.to(1).oneOf()
    val j = i % npts
    keep(okOp("kzg.monomial", [j, f], [], [[fpow(secret, j)]]))
  }
  /// the domain is the given one
  action domain = keep(okOp("kzg.domain", [], [range(0, 2^scale + 1)], [powers(root(scale), 2^scale + 1)]))
  /// the second-group point n: X^n has the constant quotient 1 on every coset of n points
  action second = {
    nondet e = 0.to(5).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    nondet d = 0.to(1).oneOf()
    val n = 2^e
    if (n >= npts or e > scale or n > 2^scale) domain
    else {
      val c = fadd(fpow(secret, n), d)
      val ok = validMulti(c, 1, p, rep(n, fpow(p, n)), secret)
      keep(okOp("kzg.checkmx", [0, 0, n], [[c, 1, p], rep(n, fpow(p, n))], [[b2i(ok)]]))
    }
  }
  action step = {
    nondet kind = 0.to(9).oneOf()
    if (kind == 0) setup else if (kind == 1) generate else if (kind == 2) noSecret else if (kind <= 5) unit
    else if (kind == 6) domain else second
  }
  /// shifting the exponent is right for exactly the true power
  val exact = if (op.name == "kzg.checkmx") (op.r[0][0] == 1) == (op.a[0][0] == fpow(secret, op.n[2])) else true
}

/// C09
module commitMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"
  import kzgalg.* from "./kzg"

  var secret: int
  var npts: int
  var g1regs: List[int]
  var op: Op
  action init = all { secret' = 7, npts' = 3, g1regs' = [0, 0, 0], op' = okOp("kzg.start", [1, 3, 3], [[7]], []) }
  action wrote(o: Op, d: int, v: int): bool = all { secret' = secret, npts' = npts, g1regs' = g1regs.replaceAt(d, v), op' = o }
  action keep(o: Op): bool = all { secret' = secret, npts' = npts, g1regs' = g1regs, op' = o }

  pure val SIZES = [2, 3, 4, 5, 8, 9, 16, 17, 30, 31, 32, 33, 34, 40, 63, 64, 65, 80]
  action setup = {
    nondet i = 0.to(17).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val s = element(c, p)
    all { secret' = s, npts' = SIZES[i], g1regs' = g1regs, op' = okOp("kzg.setup", [1, SIZES[i]], [[s]], [powers(s, SIZES[i])]) }
  }
  action commit = {
    nondet d = 0.to(2).oneOf()
    nondet c = 0.to(NSHAPES - 1).oneOf()
    nondet l = 0.to(6).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = if (l == 0) npts else if (l == 1) max(0, npts - 1) else p % (npts + 1)
    val coeffs = shape(c, p, n)
    wrote(okOp("kzg.commit", [d], [coeffs], []), d, commitment(coeffs, secret))
  }
  action tooLong = {
    nondet c = 0.to(NSHAPES - 1).oneOf()
    nondet e = 1.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    keep(refOp("kzg.commit", [0], [shape(c, p, npts + e)]))
  }
  /// committing is linear
  action linear = {
    nondet p = 0.to(ORD - 1).oneOf()
    nondet q = 0.to(ORD - 1).oneOf()
    nondet d = 0.to(2).oneOf()
    val a = prand(p, npts)
    val b = prand(q, npts)
    wrote(okOp("kzg.linear", [d], [a, b, [p]], []), d, fadd(fmul(p, commitment(a, secret)), commitment(b, secret)))
  }
  /// coefficients that make chosen digits of the scalars extreme
  pure def digits(p: int, i: int): int = {
    val w = 1 + p % 13
    val v = (p / 16 + i) % 5
    (if (v == 0) 2^254 - 2^(254 - w) else if (v == 1) 2^((p / 64 + w * i) % 254) else if (v == 2) 2^(w * (1 + i % 18)) - 1
     else if (v == 3) ORD - 1 - 2^((w * i) % 250) else 2^254 / (2^w - 1)) % ORD
  }
  /// points with chosen logarithms (repeated, opposite, infinite) instead of a setup
  action points = {
    nondet n = 1.to(70).oneOf()
    nondet c = 0.to(5).oneOf()
    nondet b = 0.to(NSHAPES).oneOf()
    nondet r = 0.to(2).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet d = 0.to(2).oneOf()
    val g = if (c <= 1) prand(p / 3, n) else if (c == 2) rep(n, p) else if (c == 3) range(0, n).foldl(List(), (acc, i) => acc.append(if (i % 2 == 0) p else fneg(p)))
            else if (c == 4) rep(n, 0) else range(0, n).foldl(List(), (acc, i) => acc.append([0, 1, ORD - 1, 2, p][(i * i + p) % 5]))
    val x = if (b == NSHAPES) range(0, n).foldl(List(), (acc, i) => acc.append(digits(p, i))) else shape(b, p, n)
    wrote(okOp("kzg.points", [d, r], [g, x], []), d, dot(g, x))
  }
  /// many points: few different logarithms
  action pointsMany = {
    nondet e = 0.to(7).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet b = 0.to(3).oneOf()
    nondet d = 0.to(2).oneOf()
    val n = [100, 127, 128, 255, 257, 511, 512, 1025][e]
    val few = prand(p / 3, 9).append(0)
    val g = range(0, n).foldl(List(), (acc, i) => acc.append(few[(i * 7 + p) % 10]))
    val x = if (b == 0) range(0, n).foldl(List(), (acc, i) => acc.append(digits(p, i))) else if (b == 1) shape(3, p, n) else prand(p, n)
    wrote(okOp("kzg.points", [d, 0], [g, x], []), d, dot(g, x))
  }
  action step = {
    nondet kind = 0.to(13).oneOf()
    if (kind == 0) setup else if (kind <= 5) commit else if (kind == 6) tooLong else if (kind == 7) linear
    else if (kind <= 12) points else pointsMany
  }
  val inField = g1regs.foldl(true, (acc, x) => acc and x >= 0 and x < ORD)
}

/// C17 - C20
module kzgMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"
  import kzgalg.* from "./kzg"

  var secret: int
  var npts: int
  var scale: int
  /// the committed polynomial
  var polys: List[List[int]]
  /// 0 last commitment, 1 last proof, 2 and 3 others
  var g1regs: List[int]
  /// where the last proof opens
  var point: int
  var count: int
  var op: Op

  pure val CONF = [(0, 2), (1, 3), (2, 5), (3, 9), (4, 17), (4, 12), (5, 33), (3, 30), (7, 40), (8, 257)]
  action init = all {
    secret' = 5, npts' = 5, scale' = 2, polys' = [[1, 2, 3]], g1regs' = [0, 0, 0, 0], point' = 1, count' = 1,
    op' = okOp("kzg.start", [2, 5, 4], [[5], [1, 2, 3]], []),
  }
  action keepAll(o: Op): bool = all {
    secret' = secret, npts' = npts, scale' = scale, polys' = polys, g1regs' = g1regs, point' = point, count' = count, op' = o }
  action wrote(o: Op, g: List[int], x: int, n: int): bool = all {
    secret' = secret, npts' = npts, scale' = scale, polys' = polys, g1regs' = g, point' = x, count' = n, op' = o }

  action setupOf(i: int, s: int): bool = all {
    secret' = s, npts' = CONF[i]._2, scale' = CONF[i]._1, op' = okOp("kzg.use", [CONF[i]._1, CONF[i]._2], [[s]], []),
    polys' = polys, g1regs' = g1regs, point' = point, count' = count }
  action setup = {
    nondet i = 0.to(8).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    setupOf(i, element(c, p))
  }
  action setupBig = {
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    setupOf(9, element(c, p))
  }
  action choose = {
    nondet c = 0.to(NSHAPES - 1).oneOf()
    nondet l = 0.to(9).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = if (l <= 2) npts else if (l == 3) max(0, npts - 1) else if (l == 4) min(1, npts) else if (l == 5) npts + 1 else p % (npts + 1)
    val coeffs = shape(c, p, n)
    all { polys' = [coeffs], op' = okOp("kzg.poly", [], [coeffs], []),
          secret' = secret, npts' = npts, scale' = scale, g1regs' = g1regs, point' = point, count' = count }
  }
  /// a point: zero, one, the secret, its negative, a root of unity, or anything
  def pointOf(c: int, p: int): int =
    if (c == 0) 0 else if (c == 1) 1 else if (c == 2) secret else if (c == 3) fneg(secret)
    else if (c <= 5) fpow(root(scale), p % 2^scale) else if (c == 6) fmul(secret, fpow(root(scale), p % 2^scale)) else element(p % 4, p / 4)
  /// commit, open and verify honestly
  def openOp(x: int, n: int, single: int): Op =
    okOp("kzg.open", [n, single], [[x], valuesOn(polys[0], x, n)],
         [[commitment(polys[0], secret), opening(polys[0], x, n, secret)]])
  action honest1 = {
    nondet c = 0.to(9).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val x = pointOf(c, p)
    if (polys[0].length() > npts) keepAll(refOp("kzg.commit", [0], polys))
    else {
      val o = openOp(x, 1, 1)
      wrote(o, g1regs.replaceAt(0, o.r[0][0]).replaceAt(1, o.r[0][1]), x, 1)
    }
  }
  action honestN = {
    nondet e = 0.to(7).oneOf()
    nondet c = 1.to(9).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val x = max(1, pointOf(c, p))
    val k = e % (scale + 1)
    val n = if (2^k < npts) 2^k else 1
    if (polys[0].length() > npts) keepAll(refOp("kzg.commit", [0], polys))
    else {
      val o = openOp(x, n, 0)
      wrote(o, g1regs.replaceAt(0, o.r[0][0]).replaceAt(1, o.r[0][1]), x, n)
    }
  }
  /// only the proof; the polynomial may be longer than the setup as long as the quotient is not
  action prove = {
    nondet e = 0.to(9).oneOf()
    nondet c = 0.to(9).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val x = pointOf(c, p)
    val n = if (e <= 2) 1 else if (e <= 6) 2^((p / 8) % (scale + 2)) else if (e == 7) 3 else if (e == 8) 0 else 1 + p % 40
    val name = if (e <= 2) "kzg.prove" else "kzg.provem"
    if (not(isPow2(n))) keepAll(errOp(name, [n], [[x]]))
    else if (quotient(polys[0], n, fpow(x, n)).length() > npts) keepAll(refOp(name, [n], [[x]]))
    else wrote(okOp(name, [n], [[x]], []), g1regs.replaceAt(2, opening(polys[0], x, n, secret)), point, count)
  }
  /// other elements: multiples and sums of those at hand
  action mix = {
    nondet d = 2.to(3).oneOf()
    nondet i = 0.to(3).oneOf()
    nondet j = 0.to(3).oneOf()
    nondet c = 0.to(4).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val k = if (c == 0) 0 else if (c == 1) 1 else if (c == 2) ORD - 1 else element(p % 4, p / 4)
    wrote(okOp("kzg.mix", [d, i, j], [[k]], []), g1regs.replaceAt(d, fadd(fmul(k, g1regs[i]), g1regs[j])), point, count)
  }
  /// verification of what the registers hold, at the proven point or elsewhere
  action check1 = {
    nondet i = 0.to(3).oneOf()
    nondet j = 0.to(3).oneOf()
    nondet c = 0.to(12).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val own = c <= 8
    val com = if (own and c != 6 and c != 7) 0 else i
    val proof = if (own and c != 5 and c != 7) 1 else j
    val x = if (c <= 3 or (c >= 5 and c <= 8)) point else pointOf(p % 10, p / 10)
    val y0 = peval(polys[0], if (c == 12) point else x)
    val y = if (c == 1) fadd(y0, 1) else if (c == 2) fneg(y0) else if (c == 3) p else if (c == 8) 0 else y0
    keepAll(okOp("kzg.check", [com, proof], [[x, y]], [[b2i(validSingle(g1regs[com], g1regs[proof], x, y, secret))]]))
  }
  /// verification of arbitrary elements, about half of them made valid with the secret
  action checkAny1 = {
    nondet c = 0.to(7).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet q = 0.to(ORD - 1).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet r1 = 0.to(2).oneOf()
    nondet r2 = 0.to(2).oneOf()
    val x = pointOf(k, q)
    val proof = if (c == 0) 0 else element(p % 4, p / 4)
    val y = if (c == 1) 0 else element(q % 4, q / 4)
    val right = fadd(y, fmul(proof, fsub(secret, x)))
    val com = if (c <= 3) right else if (c == 4) fadd(right, 1) else if (c == 5) fneg(right) else if (c == 6) 0 else p
    keepAll(okOp("kzg.checkx", [r1, r2], [[com, proof, x, y]], [[b2i(validSingle(com, proof, x, y, secret))]]))
  }
  /// the proven values on the coset, altered in one of several ways
  pure def altered(v: List[int], c: int, p: int): List[int] = {
    val n = v.length()
    val i = p % n
    val j = (p / n) % n
    if (c == 0) v
    else if (c == 1) v.replaceAt(i, fadd(v[i], 1))
    else if (c == 2) v.replaceAt(i, p)
    else if (c == 3) v.replaceAt(i, v[j]).replaceAt(j, v[i])
    else if (c == 4) rev(v)
    else if (c == 5) drop(v, 1).concat(take(v, 1))
    else if (c == 6) range(0, n).foldl(List(), (acc, t) => acc.append(v[bitrev(t, log2(n))]))
    else if (c == 7) rep(n, 0)
    else range(0, n).foldl(List(), (acc, t) => acc.append(fneg(v[t])))
  }
  action checkN = {
    nondet i = 0.to(3).oneOf()
    nondet j = 0.to(3).oneOf()
    nondet c = 0.to(8).oneOf()
    nondet f = 0.to(7).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    // f: 0-3 altered values, 4 other commitment, 5 other proof, 6 other point, 7 everything from elsewhere
    val com = if (f == 4 or f == 7) i else 0
    val proof = if (f == 5 or f == 7) j else 1
    val n = if (count <= 2^scale and count < npts) count else 1
    val x = max(1, if (f >= 6) pointOf(1 + p % 9, p / 9) else point)
    val vs = altered(valuesOn(polys[0], if (p % 2 == 0) x else max(1, point), n), if (f <= 3) c else 0, p / 3)
    keepAll(okOp("kzg.checkm", [com, proof, n], [[x], vs], [[b2i(validMulti(g1regs[com], g1regs[proof], x, vs, secret))]]))
  }
  action checkAnyN = {
    nondet e = 0.to(6).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet b = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet q = 1.to(ORD - 1).oneOf()
    nondet k = 1.to(9).oneOf()
    nondet r1 = 0.to(2).oneOf()
    nondet r2 = 0.to(2).oneOf()
    nondet al = 0.to(20).oneOf()
    val m = e % (scale + 1)
    val n = if (2^m < npts) 2^m else 1
    val x = max(1, pointOf(k, q))
    val vs0 = shape(b, q, n)
    val vs = if (al <= 8) altered(vs0, al, p / 5) else vs0
    val proof = if (c == 0) 0 else element(p % 4, p / 4)
    val right = fadd(interpolated(vs0, x, secret), fmul(proof, fsub(fpow(secret, n), fpow(x, n))))
    val com = if (c <= 3) right else if (c == 4) fadd(right, 1) else if (c == 5) fneg(right) else if (c == 6) 0 else p
    keepAll(okOp("kzg.checkmx", [r1, r2, n], [[com, proof, x], vs], [[b2i(validMulti(com, proof, x, vs, secret))]]))
  }
  /// counts that are no power of two, too large for the domain or the setup, or not the number of values; point zero
  action badN = {
    nondet c = 0.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = if (c == 0) [3, 5, 6, 7, 9, 12][p % 6] else if (c == 1) 2^(scale + 1) else if (c == 2) nextPow2(npts) else if (c == 5) 0 else 2^(p % (scale + 1))
    val l = if (c == 3) (if (p % 2 == 0) n + 1 + p % 3 else 2 * n) else n
    val x = if (c == 4) 0 else 3
    val args = [[0, 0, x], rep(l, 0)]
    keepAll(if (c == 0 or c == 5) errOp("kzg.checkmx", [0, 0, n], args) else refOp("kzg.checkmx", [0, 0, n], args))
  }
  action step17 = {
    nondet kind = 0.to(9).oneOf()
    if (kind == 0) setup else if (kind <= 2) choose else if (kind <= 7) honest1 else if (kind == 8) prove else check1
  }
  action step18 = {
    nondet kind = 0.to(11).oneOf()
    if (kind == 0) setup else if (kind == 1) choose else if (kind == 2) honest1 else if (kind == 3) mix
    else if (kind <= 7) check1 else checkAny1
  }
  action step19 = {
    nondet kind = 0.to(9).oneOf()
    if (kind == 0) setup else if (kind <= 2) choose else if (kind <= 7) honestN else if (kind == 8) prove else checkN
  }
  action step19big = {
    nondet kind = 0.to(4).oneOf()
    if (npts != 257) setupBig else if (kind <= 1) choose else honestN
  }
  action step20 = {
    nondet kind = 0.to(12).oneOf()
    if (kind == 0) setup else if (kind == 1) choose else if (kind == 2) honestN else if (kind == 3) mix
    else if (kind <= 7) checkN else if (kind <= 11) checkAnyN else badN
  }
  /// an honest opening satisfies the verification equation; an altered value does not, except where the proof is
  /// multiplied by zero or the alteration is none
  val complete =
    if (op.name == "kzg.open") {
      if (op.n[0] == 1) validSingle(op.r[0][0], op.r[0][1], op.a[0][0], op.a[1][0], secret)
      else validMulti(op.r[0][0], op.r[0][1], op.a[0][0], op.a[1], secret)
    } else true
  val sound =
    if (op.name == "kzg.check" and op.n == [0, 1] and op.r[0] == [1] and op.a[0][0] == point and g1regs[0] == peval(polys[0], secret)
        and point != secret and g1regs[1] == opening(polys[0], point, 1, secret))
      op.a[0][1] == peval(polys[0], point)
    else true
  val inv = complete and sound
}
