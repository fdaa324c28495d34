/// Polynomials over the scalar field (properties C13 - C16).
///
/// A register machine: the abstract registers hold coefficient lists (lowest degree first), the real
/// registers hold polynomial objects, and every call reads and writes registers.  All registers are compared
/// after every call, so a call that changes an operand is seen as well.

/// Coefficient lists of many shapes.
module shapes {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"

  /// lengths at which the library's algorithms change, and their neighbours
  pure val LENS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, 130, 160, 192, 193, 255, 256, 257]
  pure def len(c: int, p: int, top: int): int =
    if (c <= 1) p % 7
    else if (c <= 4) min(LENS[p % 30], top)
    else if (c == 5) min(LENS[15 + p % 15], top)
    else p % (top + 1)

  pure val NSHAPES = 20
  /// a list of n coefficients of shape c
  pure def shape(c: int, p: int, n: int): List[int] =
    if (c <= 2) prand(p, n)
    else if (c == 3) range(0, n).foldl(List(), (acc, i) => acc.append(SPECIALS[(p + i) % SPECIALS.length()]))
    // one or two non-zero coefficients
    else if (c == 4) range(0, n).foldl(List(), (acc, i) => acc.append(if (i == p % max(n, 1) or i == (p / 1000) % max(n, 1)) element(p % 4, p / 7) else 0))
    else if (c == 5) rep(n, 0)
    // leading coefficients zero
    else if (c == 6) { val k = (p / 11) % (n + 1)
                       prand(p, k).concat(rep(n - k, 0)) }
    // trailing coefficients zero
    else if (c == 7) { val k = (p / 11) % (n + 1)
                       val r = prand(p, n)
                       range(0, n).foldl(List(), (acc, i) => acc.append(if (i < k) 0 else r[i])) }
    else if (c == 8) rep(n, element(p % 4, p / 5))
    else if (c == 9) powers(element(3, p), n)
    else if (c == 10) range(0, n).foldl(List(), (acc, i) => acc.append((p + i * i) % 3))
    // only every second, fourth, ... coefficient: the values on a coset repeat
    else if (c == 11) { val r = prand(p, n)
                        val t = 2^(1 + p % 4)
                        range(0, n).foldl(List(), (acc, i) => acc.append(if (i % t == 0) r[i] else 0)) }
    // alternating signs, equal halves, reads the same backwards, few different coefficients
    else if (c == 12) range(0, n).foldl(List(), (acc, i) => acc.append(if (i % 2 == 0) p else fneg(p)))
    else if (c == 13) { val r = prand(p, n)
                        val h = max(1, n / 2)
                        range(0, n).foldl(List(), (acc, i) => acc.append(r[i % h])) }
    else if (c == 14) { val r = prand(p, n)
                        range(0, n).foldl(List(), (acc, i) => acc.append(r[min(i, n - 1 - i)])) }
    else if (c == 15) { val r = prand(p, n)
                        range(0, n).foldl(List(), (acc, i) => acc.append([0, 1, ORD - 1, p, fneg(p)][r[i] % 5])) }
    // constant but for one half, for the other half, for one place; equal differences
    else if (c == 16) { val r = prand(p, n)
                        range(0, n).foldl(List(), (acc, i) => acc.append(if (2 * i < n) p else r[i])) }
    else if (c == 17) { val r = prand(p, n)
                        range(0, n).foldl(List(), (acc, i) => acc.append(if (2 * i < n) r[i] else p)) }
    else if (c == 18) range(0, n).foldl(List(), (acc, i) => acc.append(if (i == (p / 13) % max(n, 1)) fadd(p, 1) else p))
    else range(0, n).foldl(List(), (acc, i) => acc.append((p + i * (1 + p % 9)) % ORD))
}

module polyMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"

  pure val NP = 3
  pure val TOP = 330
  var polys: List[List[int]]
  var op: Op

  action init = all {
    polys' = [[], [1], [0, 1]],
    op' = okOp("poly.init", [], [[], [1], [0, 1]], []),
  }
  action write(o: Op, d: int, p: List[int]): bool = all { polys' = polys.replaceAt(d, p), op' = o }
  action look(o: Op): bool = all { polys' = polys, op' = o }

  action load = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet c = 0.to(6).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet k = 0.to(1000000).oneOf()
    val v = shape(s, p, len(c, k, TOP))
    write(okOp("poly.load", [d], [v], []), d, v)
  }

  /// --- C13
  action eval = {
    nondet i = 0.to(NP - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val x = element(c, p)
    look(okOp("poly.eval", [i], [[x]], [[peval(polys[i], x)]]))
  }
  /// evaluation at a root that was put into the polynomial on purpose
  action evalAtRoot = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet k = 0.to(20).oneOf()
    nondet q = 0.to(ORD - 1).oneOf()
    val x = element(c, p)
    val v = pmul([fneg(x), 1], shape(0, q, k + 1))
    write(okOp("poly.evalnew", [d], [v, [x]], [[0]]), d, v)
  }
  /// scaling is undone by unscaling
  action scaling = {
    nondet i = 0.to(NP - 1).oneOf()
    look(okOp("poly.rescale", [i], [], []))
  }

  /// --- C14
  pure def outLen(c: int, k: int, la: int, lb: int): int = {
    val full = max(la + lb, 1) - 1
    if (c == 0) full
    else if (c == 1) max(full, 1) - 1
    else if (c == 2) full + 1 + k % 5
    else if (c == 3) min(LENS[k % 30], full + 10)
    else if (c == 4) k % (full + 1)
    else 128 + k % 2
  }
  /// a product with an empty operand is the zero polynomial; its length is not specified
  action mul = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet j = 0.to(NP - 1).oneOf()
    nondet c = 0.to(5).oneOf()
    nondet k = 0.to(1000000).oneOf()
    nondet how = 0.to(2).oneOf()
    val a = polys[i]
    val b = polys[j]
    val n = outLen(c, k, a.length(), b.length())
    val nm = if (how == 0) "poly.muldirect" else if (how == 1) "poly.mulfft" else "poly.mulboth"
    if (a.length() == 0 or b.length() == 0)
      look(okOp("poly.mulempty", [i, j, n], [], []))
    else if (a.length() + b.length() > 640) load
    else {
      val v = pmulTrunc(a, b, n)
      write(okOp(nm, [d, i, j, n], [], []), d, v)
    }
  }

  /// --- C15
  action divide = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet j = 0.to(NP - 1).oneOf()
    val a = norm(polys[i])
    val b = norm(polys[j])
    if (b.length() == 0) look(errOp("poly.div", [d, i, j], []))
    else { val q = pdivmod(a, b)._1
           write(okOp("poly.div", [d, i, j], [], []), d, q) }
  }
  /// the methods that take the operands as they are: the divisor's leading coefficient is not zero
  action divideExact = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet j = 0.to(NP - 1).oneOf()
    nondet how = 0.to(1).oneOf()
    val nm = if (how == 0) "poly.longdiv" else "poly.fastdiv"
    val a = polys[i]
    val b = polys[j]
    if (b.length() == 0) look(errOp(nm, [d, i, j], []))
    else if (last(b) == 0) load
    else { val q = pdivmod(a, b)._1
           write(okOp(nm, [d, i, j], [], []), d, q) }
  }
  /// a dividend made from a quotient and a remainder; all methods must find the quotient
  action divideAimed = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet cb = 0.to(6).oneOf()
    nondet kb = 0.to(1000000).oneOf()
    nondet cq = 0.to(6).oneOf()
    nondet kq = 0.to(1000000).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet t = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 2).oneOf()
    nondet r = 0.to(2).oneOf()
    val b = shape(s, p, len(cb, kb, 260)).append(1 + p % (ORD - 1))
    val q = shape(t, p / 3, len(cq, kq, 200)).append(if (kq % 5 == 0) 1 else element(3, 1 + p % (ORD - 2)))
    val rem = if (r == 0) [] else if (r == 1) prand(p, b.length() - 1) else shape(t, p / 5, b.length() - 1)
    val qb = pmul(q, b)
    val a = range(0, qb.length()).foldl(List(), (acc, i) => acc.append(fadd(qb[i], at(rem, i))))
    write(okOp("poly.divall", [d], [a, b], [q]), d, q)
  }
  /// division by X - z
  action divideLinear = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val z = element(c, p)
    val a = norm(polys[i])
    val q = pdivmod(a, [fneg(z), 1])._1
    write(okOp("poly.divlinear", [d, i], [[z]], [q]), d, q)
  }

  /// --- C16
  /// b with a b = 1 modulo X^n
  pure def series(a: List[int], n: int): List[int] = {
    val c = finv(a[0])
    span(1, n).foldl([c], (b, k) => {
      val s = span(1, min(k + 1, a.length())).foldl(0, (s, j) => s + a[j] * b[k - j]) % ORD
      b.append(fmul(fneg(s), c))
    })
  }
  action invert = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet c = 0.to(6).oneOf()
    nondet k = 0.to(1000000).oneOf()
    val n = max(1, len(c, k, 300))
    val a = polys[i]
    if (a.length() == 0) look(errOp("poly.inverse", [d, i, n], []))
    else if (a[0] == 0) look(errOp("poly.inverse", [d, i, n], []))
    else { val v = series(a, n)
           write(okOp("poly.inverse", [d, i, n], [], []), d, v) }
  }
  action invertNew = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 2).oneOf()
    nondet ca = 0.to(6).oneOf()
    nondet ka = 0.to(1000000).oneOf()
    nondet c = 0.to(6).oneOf()
    nondet k = 0.to(1000000).oneOf()
    val n = max(1, len(c, k, 300))
    val a0 = element(p % 4, p / 9)
    val a = [if (a0 == 0) 1 else a0].concat(shape(s, p, len(ca, ka, 300)))
    val v = series(a, n)
    write(okOp("poly.inversenew", [d, n], [a], []), d, v)
  }

  /// --- large operands, one of them with few terms so that the specification can keep up
  pure def sparse(vs: List[int], es: List[int], n: int): List[int] =
    range(0, vs.length()).foldl(rep(n, 0), (acc, t) => acc.replaceAt(es[t] % n, fadd(acc[es[t] % n], vs[t])))
  /// (v0 X^e0 + v1 X^e1 + ...) b, cut to n coefficients
  pure def timesSparse(vs: List[int], es: List[int], b: List[int], n: int): List[int] =
    range(0, vs.length()).foldl(rep(n, 0), (acc, t) =>
      range(0, n).foldl(List(), (l, i) => l.append(if (i >= es[t] and i - es[t] < b.length()) fadd(acc[i], fmul(vs[t], b[i - es[t]])) else acc[i])))
  pure val SIZES = [200, 300, 400, 511, 512, 513, 514, 640, 700, 1000, 1023, 1024, 1025, 1100, 1500]
  action mulLarge = {
    nondet i = 0.to(14).oneOf()
    nondet j = 0.to(14).oneOf()
    nondet s = 0.to(2).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet how = 0.to(2).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val la = SIZES[i]
    val b = shape([0, 3, 10][s], p, SIZES[j])
    val es = [p % la, (p / 4096) % la, (p / 2^30) % la, la - 1]
    val vs = [p, ORD - 1, element(0, p / 3), 1 + p % 5]
    val full = la + b.length() - 1
    val n = if (c == 0) full else if (c == 1) full + 1 + p % 4 else if (c == 2) max(la, b.length()) else 1 + p % full
    look(okOp("poly.mulnew", [how, n], [sparse(vs, es, la), b], [timesSparse(vs, es, b, n)]))
  }
  action divLarge = {
    nondet i = 0.to(14).oneOf()
    nondet j = 0.to(14).oneOf()
    nondet s = 0.to(2).oneOf()
    nondet r = 0.to(1).oneOf()
    nondet f = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 2).oneOf()
    val lq = SIZES[i]
    val b = shape([0, 3, 10][s], p, SIZES[j] - 1).append(1 + p % (ORD - 1))
    val es = [p % (lq - 1), (p / 4096) % (lq - 1), (p / 2^30) % (lq - 1), lq - 1]
    val vs = [p, ORD - 1, element(0, p / 3), 1 + p % 5]
    val qb = timesSparse(vs, es, b, lq + b.length() - 1)
    val rem = if (r == 0) [] else prand(p / 5, b.length() - 1)
    val a = range(0, qb.length()).foldl(List(), (acc, t) => acc.append(fadd(qb[t], at(rem, t))))
    // the divisor may be the factor with few terms as well
    if (f == 0) look(okOp("poly.divlarge", [], [a, b], [sparse(vs, es, lq)]))
    else look(okOp("poly.divlarge", [], [qb, sparse(vs, es, lq)], [b]))
  }
  action invLarge = {
    nondet i = 0.to(14).oneOf()
    nondet j = 0.to(14).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    val n = SIZES[i]
    val la = SIZES[j]
    val es = [0, 1 + p % 9, 1 + (p / 4096) % (la - 1), la - 1]
    val a0 = max(1, element(p % 4, p / 9))
    val f = fneg(finv(a0))
    // the terms are different unless two exponents agree, which adding handles
    val vs = [a0, p, ORD - 1, 3]
    val inv = span(1, n).foldl([finv(a0)], (b, k) =>
      b.append(fmul(f, range(1, 4).foldl(0, (s, t) => s + (if (es[t] <= k) vs[t] * b[k - es[t]] else 0)) % ORD)))
    look(okOp("poly.invnew", [n], [sparse(vs, es, la)], [inv]))
  }

  action stepEval = {
    nondet kind = 0.to(9).oneOf()
    if (kind <= 3) load else if (kind <= 7) eval else if (kind == 8) evalAtRoot else scaling
  }
  action stepMul = {
    nondet kind = 0.to(11).oneOf()
    if (kind <= 4) load else if (kind <= 9) mul else mulLarge
  }
  action stepDiv = {
    nondet kind = 0.to(11).oneOf()
    if (kind <= 2) load else if (kind == 3) divide else if (kind == 4) divideExact else if (kind <= 8) divideAimed else if (kind <= 10) divideLinear else divLarge
  }
  action stepInv = {
    nondet kind = 0.to(11).oneOf()
    if (kind <= 2) load else if (kind <= 4) invert else if (kind <= 9) invertNew else invLarge
  }
  action stepLarge = {
    nondet kind = 0.to(2).oneOf()
    if (kind == 0) mulLarge else if (kind == 1) divLarge else invLarge
  }
  action step = {
    nondet kind = 0.to(3).oneOf()
    if (kind == 0) stepEval else if (kind == 1) stepMul else if (kind == 2) stepDiv else stepInv
  }

  val inField = polys.foldl(true, (acc3, p) => acc3 and (p.foldl(true, (acc, x) => acc and (x >= 0 and x < ORD))))
  /// what was specified as quotient or inverse is one
  val laws =
    if (op.name == "poly.inversenew")
      pmulTrunc(op.a[0], polys[op.n[0]], op.n[1]) == padTo([1], op.n[1])
    else if (op.name == "poly.invnew")
      pmulTrunc(op.a[0], op.r[0], 40) == padTo([1], 40)
    else if (op.name == "poly.divall") {
      val qb = pmul(op.a[1], op.r[0])
      norm(range(0, op.a[0].length()).foldl(List(), (acc, i) => acc.append(fsub(op.a[0][i], at(qb, i))))).length() < op.a[1].length()
    }
    else true
  val inv = inField and laws
}
