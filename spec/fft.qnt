/// Transform settings, the Fourier transforms of scalars and of group elements, and the data extension
/// (properties C10, C11, C12, C21).

/// Definitions, all from first principles: sums over powers of a root of unity.
module dft {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"

  /// the standard root of unity of order 2^k: 7 generates the multiplicative group
  pure def root(k: int): int = fpow(7, (ORD - 1) / 2^k)
  /// values at the powers of w (of order n) of the polynomial with coefficients v
  pure def dftw(v: List[int], w: int): List[int] = {
    val n = v.length()
    val pw = powers(w, n)
    range(0, n).foldl(List(), (acc14, j) => acc14.append(range(0, n).foldl(0, (s, i) => s + v[i] * pw[(i * j) % n]) % ORD))
  }
  pure def scaleBy(v: List[int], c: int): List[int] = v.foldl(List(), (acc13, x) => acc13.append(fmul(x, c)))
  pure def dftFwd(v: List[int]): List[int] = dftw(v, root(log2(v.length())))
  pure def dftInv(v: List[int]): List[int] = scaleBy(dftw(v, finv(root(log2(v.length())))), finv(v.length()))
  /// values at the odd powers of the root of order 2n of the polynomial that has the values v at the even powers
  pure def oddValues(v: List[int]): List[int] = {
    val n = v.length()
    val c = dftInv(v)
    val w = root(log2(n) + 1)
    val pw = powers(w, 2 * n)
    range(0, n).foldl(List(), (acc12, j) => acc12.append(range(0, n).foldl(0, (s, i) => s + c[i] * pw[(i * (2 * j + 1)) % (2 * n)]) % ORD))
  }

  /// Closed forms, for sizes at which the sums would take too long.
  /// values at x, x r, ..., x r^(n-1) of a + a c X + ... + a c^(m-1) X^(m-1)
  pure def geoValues(a: int, c: int, m: int, x: int, r: int, n: int): List[int] = {
    val y = fmul(c, x)
    val ys = powers(r, n)
    val ym = powers(fpow(r, m), n)
    val y0m = fpow(y, m)
    val den = ys.foldl(List(), (acc11, u) => acc11.append({ val d = fsub(fmul(y, u), 1)
                              if (d == 0) 1 else d }))
    val inv = finvAll(den)
    range(0, n).foldl(List(), (acc10, j) => acc10.append(if (fmul(y, ys[j]) == 1) fmul(a, m % ORD)
                else fmul(a, fmul(fsub(fmul(y0m, ym[j]), 1), inv[j]))))
  }
  /// values at x, x r, ..., x r^(n-1) of v0 X^e0 + v1 X^e1 + ...
  pure def sparseValues(vs: List[int], es: List[int], x: int, r: int, n: int): List[int] =
    range(0, vs.length()).foldl(rep(n, 0), (acc, t) => {
      val ps = powers(fpow(r, es[t]), n)
      val f = fmul(vs[t], fpow(x, es[t]))
      range(0, n).foldl(List(), (acc9, j) => acc9.append((acc[j] + f * ps[j]) % ORD))
    })
  pure def sparseCoeffs(vs: List[int], es: List[int], n: int): List[int] =
    range(0, vs.length()).foldl(rep(n, 0), (acc, t) => acc.replaceAt(es[t], fadd(acc[es[t]], vs[t])))
  pure def geoCoeffs(a: int, c: int, m: int, n: int): List[int] =
    scaleBy(powers(c, m), a).concat(rep(n - m, 0))
}

/// C10
module fsMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import dft.* from "./fft"

  var made: List[int]
  var op: Op
  action init = all { made' = [], op' = NoOp }
  action note(o: Op): bool = all { made' = made, op' = o }

  /// settings: width, root, all powers
  action settings = {
    nondet k = 0.to(11).oneOf()
    all { op' = okOp("fs.new", [k], [range(0, 2^k + 1)], [[2^k], [root(k)], powers(root(k), 2^k + 1)]),
          made' = made.append(k) }
  }
  /// large settings, looked at in a few places
  action settingsLarge = {
    nondet k = 12.to(16).oneOf()
    nondet p = 0.to(2^64).oneOf()
    val at1 = range(0, 12).foldl(List(), (acc8, i) => acc8.append((p / (i * i + 1)) % (2^k + 1)))
    val ix = [0, 1, 2, 2^(k - 1) - 1, 2^(k - 1), 2^(k - 1) + 1, 2^k - 1, 2^k].concat(at1)
    note(okOp("fs.new", [k], [ix], [[2^k], [root(k)], ix.foldl(List(), (acc7, i) => acc7.append(fpow(root(k), i)))]))
  }
  action settingsHuge = {
    nondet k = 17.to(20).oneOf()
    nondet p = 0.to(2^64).oneOf()
    val ix = range(0, 20).foldl(List(), (acc6, i) => acc6.append((p / (i * i + 1)) % (2^k + 1)))
    note(okOp("fs.new", [k], [ix], [[2^k], [root(k)], ix.foldl(List(), (acc5, i) => acc5.append(fpow(root(k), i)))]))
  }
  action settingsBad = {
    nondet c = 0.to(2).oneOf()
    nondet p = 0.to(2^30).oneOf()
    note(errOp("fs.new", [if (c == 0) 32 else if (c == 1) 33 + p % 40 else 32 + p], []))
  }
  /// the table of roots, for the scales whose settings are too large to be made
  action table = {
    nondet k = 0.to(31).oneOf()
    note(okOp("fs.table", [k], [], [[root(k)]]))
  }
  /// expanding a root of order 2^k to width n: all powers back to 1 if 2^k <= n, refused otherwise
  action expand = {
    nondet k = 0.to(10).oneOf()
    nondet e = 0.to(2^20).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet d = 0.to(2^10).oneOf()
    // any root of this order, not only the standard one
    val w = fpow(root(k), 2 * e + 1)
    val n = if (c == 0) 2^k else if (c == 1) 2^k + 1 + d % 9 else if (c == 2) max(2^k - 1, 1) else 1 + d % 2^k
    if (n >= 2^k) note(okOp("fs.expand", [n], [[w]], [powers(w, max(2^k, 1) + 1)]))
    else note(errOp("fs.expand", [n], [[w]]))
  }
  /// scalars which are not roots of unity of small order
  action expandBad = {
    nondet n = 1.to(64).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val w = element(c, p)
    if (range(1, n + 1).foldl(false, (acc, i) => acc or fpow(w, i) == 1)) note(NoOp)
    else note(errOp("fs.expand", [n], [[w]]))
  }
  action step = {
    nondet kind = 0.to(11).oneOf()
    if (kind <= 2) settings else if (kind == 3) settingsLarge else if (kind == 4) settingsBad
    else if (kind <= 6) table else if (kind <= 9) expand else expandBad
  }
  action stepHuge = {
    nondet kind = 0.to(3).oneOf()
    if (kind == 0) settingsHuge else if (kind == 1) settingsLarge else table
  }

  /// the root has exactly the order 2^k
  val order =
    if (op.name == "fs.table" or (op.name == "fs.new" and op.ok == "ok")) {
      val k = op.n[0]
      val w = if (op.name == "fs.table") op.r[0][0] else op.r[1][0]
      fpow(w, 2^k) == 1 and (k == 0 or fpow(w, 2^(k - 1)) == ORD - 1)
    } else true
}

/// C11
module fftMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"

  var regs: List[int]
  var op: Op
  action init = all { regs' = [1], op' = okOp("fr.init", [], [[1]], []) }
  action keep(o: Op): bool = all { regs' = regs, op' = o }
  action become(o: Op, v: List[int]): bool = all { regs' = v, op' = o }

  action load = {
    nondet k = 0.to(7).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val v = shape(s, p, 2^k)
    become(okOp("fr.init", [], [v], []), v)
  }
  action loadBig = {
    nondet k = 8.to(9).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val v = shape(s, p, 2^k)
    become(okOp("fr.init", [], [v], []), v)
  }
  action forward = {
    nondet d = 0.to(4).oneOf()
    val k = log2(regs.length())
    become(okOp("fft.fwd", [k + d], [], []), dftFwd(regs))
  }
  action inverse = {
    nondet d = 0.to(4).oneOf()
    val k = log2(regs.length())
    become(okOp("fft.inv", [k + d], [], []), dftInv(regs))
  }
  /// there and back
  action roundtrip = {
    nondet d = 0.to(4).oneOf()
    nondet e = 0.to(4).oneOf()
    nondet b = 0.to(1).oneOf()
    val k = log2(regs.length())
    keep(okOp("fft.roundtrip", [k + d, k + e, b], [], []))
  }
  /// the quadratic algorithm
  action slow = {
    nondet d = 0.to(4).oneOf()
    val k = log2(regs.length())
    become(okOp("fft.slow", [k + d], [], []), dftFwd(regs))
  }
  /// lengths outside the domain: 0, no power of two, larger than the settings
  action bad = {
    nondet k = 0.to(8).oneOf()
    nondet c = 0.to(2).oneOf()
    nondet p = 0.to(1000).oneOf()
    nondet b = 0.to(1).oneOf()
    val n = if (c == 0) p % 70 else if (c == 1) 2^(k + 1) else 3 * (1 + p % 30)
    if (isPow2(n) and n <= 2^k) keep(NoOp)
    else keep(errOp("fft.bad", [k, b], [prand(p, n)]))
  }
  /// large transforms of data with a closed form
  action sparse = {
    nondet k = 9.to(12).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    val n = 2^k
    val es = [p % n, (p / n) % n, (p / (n * n)) % n]
    val vs = [element(c, p), element(3, p / 3), element(0, p)]
    val w = root(k)
    val out = if (b == 0) sparseValues(vs, es, 1, w, n) else scaleBy(sparseValues(vs, es, 1, finv(w), n), finv(n))
    keep(okOp("fft.sparse", [k + d, b, n], [vs, es], [out]))
  }
  action geometric = {
    nondet k = 9.to(12).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet z = 0.to(2).oneOf()
    val n = 2^k
    val a = element(c, p)
    // the ratio may be a root of unity, then one denominator is zero
    val g = if (z == 0) fpow(root(k), p % n) else element(3, p)
    val m = if (z == 1) 1 + p % n else n
    val w = root(k)
    val out = if (b == 0) geoValues(a, g, m, 1, w, n) else scaleBy(geoValues(a, g, m, 1, finv(w), n), finv(n))
    keep(okOp("fft.geo", [k + d, b, n, m], [[a, g]], [out]))
  }
  action step = {
    nondet kind = 0.to(15).oneOf()
    if (kind <= 3) load else if (kind <= 6) forward else if (kind <= 9) inverse else if (kind == 10) roundtrip
    else if (kind == 11) slow else bad
  }
  action stepBig = {
    nondet kind = 0.to(7).oneOf()
    if (kind == 0) loadBig else if (kind == 1) forward else if (kind == 2) inverse else if (kind == 3) roundtrip
    else if (kind <= 5) sparse else geometric
  }
  val inField = regs.foldl(true, (acc4, x) => acc4 and (x >= 0 and x < ORD))
  /// the closed forms agree with the sums at the first values
  val closed =
    if (op.name == "fft.geo") {
      val c = geoCoeffs(op.a[0][0], op.a[0][1], op.n[3], op.n[2])
      val k = log2(op.n[2])
      if (op.n[1] == 0) peval(c, root(k)) == op.r[0][1] else fmul(peval(c, finv(root(k))), finv(op.n[2])) == op.r[0][1]
    }
    else if (op.name == "fft.sparse") {
      val c = sparseCoeffs(op.a[0], op.a[1], op.n[2])
      val k = log2(op.n[2])
      if (op.n[1] == 0) peval(c, root(k)) == op.r[0][1] else fmul(peval(c, finv(root(k))), finv(op.n[2])) == op.r[0][1]
    }
    else true
  val inv = inField and closed
}

/// C12: the registers hold discrete logarithms of group elements
module fftG1Machine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"

  var g1regs: List[int]
  var op: Op
  action init = all { g1regs' = [1], op' = okOp("g1.init", [0], [[1]], []) }
  action keep(o: Op): bool = all { g1regs' = g1regs, op' = o }
  action become(o: Op, v: List[int]): bool = all { g1regs' = v, op' = o }

  pure val TOPK = 5
  action load = {
    nondet k = 0.to(TOPK).oneOf()
    nondet s = 0.to(NSHAPES).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet rp = 0.to(2).oneOf()
    // equal and opposite neighbours, infinity
    val v = if (s == NSHAPES) range(0, 2^k).foldl(List(), (acc3, i) => acc3.append(if (i % 4 == 0) p else if (i % 4 == 1) fneg(p) else if (i % 4 == 2) p else 0))
            else shape(s, p, 2^k)
    become(okOp("g1.init", [rp], [v], []), v)
  }
  action forward = {
    nondet d = 0.to(4).oneOf()
    val k = log2(g1regs.length())
    become(okOp("fft.g1fwd", [k + d], [], []), dftFwd(g1regs))
  }
  action inverse = {
    nondet d = 0.to(4).oneOf()
    val k = log2(g1regs.length())
    become(okOp("fft.g1inv", [k + d], [], []), dftInv(g1regs))
  }
  action slow = {
    nondet d = 0.to(4).oneOf()
    val k = log2(g1regs.length())
    if (k > 4) keep(NoOp)
    else become(okOp("fft.g1slow", [k + d], [], []), dftFwd(g1regs))
  }
  action bad = {
    nondet k = 0.to(5).oneOf()
    nondet c = 0.to(2).oneOf()
    nondet p = 0.to(1000).oneOf()
    nondet b = 0.to(1).oneOf()
    val n = if (c == 0) p % 20 else if (c == 1) 2^(k + 1) else 3 * (1 + p % 6)
    if (isPow2(n) and n <= 2^k) keep(NoOp)
    else keep(errOp("fft.g1bad", [k, b], [range(0, n)]))
  }
  action step = {
    nondet kind = 0.to(11).oneOf()
    if (kind <= 2) load else if (kind <= 5) forward else if (kind <= 8) inverse else if (kind == 9) slow else bad
  }
  val inField = g1regs.foldl(true, (acc2, x) => acc2 and (x >= 0 and x < ORD))
}

/// C21
module dasMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"

  var regs: List[int]
  var op: Op
  action init = all { regs' = [1], op' = okOp("fr.init", [], [[1]], []) }
  action keep(o: Op): bool = all { regs' = regs, op' = o }
  action become(o: Op, v: List[int]): bool = all { regs' = v, op' = o }

  action load = {
    nondet k = 0.to(7).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val v = shape(s, p, 2^k)
    become(okOp("fr.init", [], [v], []), v)
  }
  /// the odd values replace the even ones, so that extensions are extended again
  action extend = {
    nondet d = 1.to(4).oneOf()
    val k = log2(regs.length())
    become(okOp("das.ext", [k + d], [], []), oddValues(regs))
  }
  /// the interleaved values are the transform of coefficients with zero upper half
  action halves = {
    nondet d = 1.to(3).oneOf()
    val k = log2(regs.length())
    keep(okOp("das.halves", [k + d], [], [dftInv(regs)]))
  }
  action bad = {
    nondet k = 0.to(8).oneOf()
    nondet c = 0.to(2).oneOf()
    nondet p = 0.to(1000).oneOf()
    val n = if (c == 0) p % 70 else if (c == 1) 2^k else 3 * (1 + p % 30)
    if (isPow2(n) and 2 * n <= 2^k) keep(NoOp)
    else keep(errOp("das.bad", [k], [prand(p, n)]))
  }
  /// large extensions of polynomials with known values
  action sparse = {
    nondet k = 7.to(11).oneOf()
    nondet d = 1.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    val n = 2^k
    val es = [p % n, (p / n) % n, (p / (n * n)) % n]
    val vs = [element(c, p), element(3, p / 3), element(0, p)]
    val w = root(k + 1)
    keep(okOp("das.new", [k + d], [sparseValues(vs, es, 1, fsqr(w), n)], [sparseValues(vs, es, w, fsqr(w), n)]))
  }
  action geometric = {
    nondet k = 7.to(11).oneOf()
    nondet d = 1.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet z = 0.to(2).oneOf()
    val n = 2^k
    val w = root(k + 1)
    val g = if (z == 0) fpow(w, p % (2 * n)) else element(3, p)
    val m = if (z == 1) 1 + p % n else n
    keep(okOp("das.new", [k + d], [geoValues(1, g, m, 1, fsqr(w), n)], [geoValues(1, g, m, w, fsqr(w), n)]))
  }
  action step = {
    nondet kind = 0.to(11).oneOf()
    if (kind <= 3) load else if (kind <= 7) extend else if (kind == 8) halves else if (kind <= 10) bad
    else { nondet z = 0.to(1).oneOf()
           if (z == 0) sparse else geometric }
  }
  val inField = regs.foldl(true, (acc1, x) => acc1 and (x >= 0 and x < ORD))
}
