/// The base field of BLS12-381 and its extensions of degree 2, 6 and 12 (property C03).
///
/// Fp2 = Fp[u]/(u^2 + 1), Fp6 = Fp2[v]/(v^3 - (u + 1)), Fp12 = Fp6[w]/(w^2 - v).  The two upper fields are
/// both treated as Fp2[t]/(t^n - (u + 1)), with n = 3 (t = v) and n = 6 (t = w, because w^2 = v), and all
/// operations are the schoolbook ones.  Elements are coefficient lists over Fp in the order of the library's
/// components: the length of the list (1, 2, 6, 12) is the degree of the field.
module towerAlg {
  import prims.* from "./prims"
  import field(Q = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787).* from "./prims"

  pure def md(x: int): int = { val r = x % ORD
    if (r < 0) r + ORD else r }

  // ---- degree 2
  pure def mul2(x: List[int], y: List[int]): List[int] = [md(x[0] * y[0] - x[1] * y[1]), md(x[0] * y[1] + x[1] * y[0])]
  pure def add2(x: List[int], y: List[int]): List[int] = [fadd(x[0], y[0]), fadd(x[1], y[1])]
  pure def sub2(x: List[int], y: List[int]): List[int] = [fsub(x[0], y[0]), fsub(x[1], y[1])]
  pure def conj2(x: List[int]): List[int] = [x[0], fneg(x[1])]
  pure def norm2(x: List[int]): int = md(x[0] * x[0] + x[1] * x[1])
  pure def inv2(x: List[int]): List[int] = { val n = finv(norm2(x))
    [fmul(x[0], n), fmul(fneg(x[1]), n)] }
  pure def xi(x: List[int]): List[int] = [fsub(x[0], x[1]), fadd(x[0], x[1])]
  pure def pow2(x: List[int], e: int): List[int] =
    range(0, 800).foldl(([1, 0], x, e), (st, i) =>
      if (st._3 == 0) st
      else (if (st._3 % 2 == 1) mul2(st._1, st._2) else st._1, mul2(st._2, st._2), st._3 / 2))._1
  /// a square in Fp2: the norm is a square in Fp
  pure def isSquare2(x: List[int]): bool = fIsSquare(norm2(x))

  // ---- lists of n elements of Fp2: Fp2[t]/(t^n - (u + 1))
  pure def mulT(a: List[List[int]], b: List[List[int]], n: int): List[List[int]] =
    range(0, n).foldl(List(), (acc, k) => {
      val s = range(0, n).foldl((0, 0, 0, 0), (st, i) => {
        val x = a[i]
        val y = b[if (i <= k) k - i else k + n - i]
        val re = x[0] * y[0] - x[1] * y[1]
        val im = x[0] * y[1] + x[1] * y[0]
        if (i <= k) (st._1 + re, st._2 + im, st._3, st._4) else (st._1, st._2, st._3 + re, st._4 + im)
      })
      acc.append([md(s._1 + s._3 - s._4), md(s._2 + s._3 + s._4)])
    })
  pure def inv3(x: List[List[int]]): List[List[int]] = {
    val a = sub2(mul2(x[0], x[0]), xi(mul2(x[1], x[2])))
    val b = sub2(xi(mul2(x[2], x[2])), mul2(x[0], x[1]))
    val c = sub2(mul2(x[1], x[1]), mul2(x[0], x[2]))
    val n = inv2(add2(mul2(x[0], a), xi(add2(mul2(x[2], b), mul2(x[1], c)))))
    [mul2(a, n), mul2(b, n), mul2(c, n)]
  }
  pure def negOdd(x: List[List[int]]): List[List[int]] =
    range(0, 6).foldl(List(), (acc, i) => acc.append(if (i % 2 == 1) [fneg(x[i][0]), fneg(x[i][1])] else x[i]))
  pure def inv6(x: List[List[int]]): List[List[int]] = {
    val y = negOdd(x)
    val n = mulT(x, y, 6)
    val m = inv3([n[0], n[2], n[4]])
    mulT(y, [m[0], [0, 0], m[1], [0, 0], m[2], [0, 0]], 6)
  }
  /// flat coefficient lists and lists over Fp2 by powers of t
  pure val ORDER12 = [0, 3, 1, 4, 2, 5]
  pure def unflat(x: List[int]): List[List[int]] = {
    val n = x.length() / 2
    range(0, n).foldl(List(), (acc, i) => { val j = if (n == 6) ORDER12[i] else i
      acc.append([x[2 * j], x[2 * j + 1]]) })
  }
  pure val PLACE12 = [0, 2, 4, 1, 3, 5]
  pure def flat(x: List[List[int]]): List[int] = {
    val n = x.length()
    range(0, n).foldl(List(), (acc, i) => acc.concat(if (n == 6) x[PLACE12[i]] else x[i]))
  }

  // ---- all degrees
  pure def tadd(x: List[int], y: List[int]): List[int] = range(0, x.length()).foldl(List(), (acc, i) => acc.append(fadd(x[i], y[i])))
  pure def tsub(x: List[int], y: List[int]): List[int] = range(0, x.length()).foldl(List(), (acc, i) => acc.append(fsub(x[i], y[i])))
  pure def tneg(x: List[int]): List[int] = x.foldl(List(), (acc, c) => acc.append(fneg(c)))
  pure def tmul(x: List[int], y: List[int]): List[int] =
    if (x.length() == 1) [fmul(x[0], y[0])]
    else if (x.length() == 2) mul2(x, y)
    else flat(mulT(unflat(x), unflat(y), x.length() / 2))
  pure def tinv(x: List[int]): List[int] =
    if (x.length() == 1) [finv(x[0])]
    else if (x.length() == 2) inv2(x)
    else if (x.length() == 6) flat(inv3(unflat(x)))
    else flat(inv6(unflat(x)))
  pure def tzero(d: int): List[int] = rep(d, 0)
  pure def tone(d: int): List[int] = [1].concat(rep(d - 1, 0))
  pure def isZero(x: List[int]): bool = x == tzero(x.length())
  /// (u + 1)^((p - 1) / n) for n = 3 and n = 6
  pure val GAMMA3 = pow2([1, 1], (ORD - 1) / 3)
  pure val GAMMA6 = pow2([1, 1], (ORD - 1) / 6)
  /// x^p, by (c t^i)^p = conj(c) gamma^i t^i
  pure def frob(x: List[int]): List[int] =
    if (x.length() == 1) x
    else if (x.length() == 2) conj2(x)
    else {
      val u = unflat(x)
      val n = u.length()
      val g = if (n == 3) GAMMA3 else GAMMA6
      flat(range(0, n).foldl((List(), [1, 0]), (st, i) => (st._1.append(mul2(conj2(u[i]), st._2)), mul2(st._2, g)))._1)
    }
  pure def tpow(x: List[int], e: int): List[int] =
    range(0, 800).foldl((tone(x.length()), x, e), (st, i) =>
      if (st._3 == 0) st
      else (if (st._3 % 2 == 1) tmul(st._1, st._2) else st._1, tmul(st._2, st._2), st._3 / 2))._1
  /// multiplication by t
  pure def byT(x: List[int]): List[int] = {
    val u = unflat(x)
    flat([xi(last(u))].concat(u.slice(0, u.length() - 1)))
  }
  /// larger than its negative: as an integer, in Fp2 by the upper coefficient first
  pure def larger(x: List[int]): bool =
    if (x.length() == 1) x[0] > (ORD - 1) / 2
    else x[1] > (ORD - 1) / 2 or (x[1] == 0 and x[0] > (ORD - 1) / 2)

  // ---- choice of elements
  pure val R = 2^384 % ORD
  pure val RINV = finv(R)
  pure val W64 = 2^64
  pure val PWORDS = [0xb9feffffffffaaab, 0x1eabfffeb153ffff, 0x6730d2a0f6b0f624, 0x64774b84f38512bf, 0x4b1ba7b6434bacd7, 0x1a0111ea397fe69a]
  pure val WORDS = [0, 1, 2^32 - 1, 2^32, 2^63, 2^64 - 2, 2^64 - 1]
  pure val SPECIALS = [0, 1, 2, 3, 4, ORD - 1, ORD - 2, (ORD - 1) / 2, (ORD + 1) / 2, R, RINV, fmul(R, R), fneg(R), fneg(RINV), 2^64 - 1, 2^64, 2^128,
    2^192 - 1, 2^256, 2^320, 2^380, ORD - 2^64, ORD - 2^320]
  /// a six word pattern: each word extreme or that of the characteristic
  pure def pattern(p: int): int =
    range(0, 6).foldl((0, p, 1), (st, i) => {
      val k = st._2 % 9
      val w = if (k < 7) WORDS[k] else if (k == 7) PWORDS[i] else PWORDS[i] - 1
      (st._1 + w * st._3, st._2 / 9, st._3 * W64)
    })._1
  pure def element(cls: int, p: int): int =
    if (cls == 0) SPECIALS[p % SPECIALS.length()]
    // the pattern as internal representation, or as value
    else if (cls == 1) fmul(pattern(p) % ORD, RINV)
    else if (cls == 2) pattern(p) % ORD
    else p % ORD
  /// how: 0 any, 1 single component, 2 boundary values, 3 patterns, 4 mixed with zeros, 5 in the field below
  pure def towerElement(d: int, how: int, p: int): List[int] = {
    val rnd = prand(p, d)
    range(0, d).foldl(List(), (acc, i) => {
      val x = rnd[i]
      acc.append(
        if (how == 0) x
        else if (how == 1) (if (p % d == i) element(p / 16 % 4, x) else 0)
        else if (how == 2) element(0, x / 16)
        else if (how == 3) element(1 + x % 2, x / 4)
        else if (how == 4) (if (x % 3 == 0) 0 else element(x / 3 % 4, x / 16))
        else (if (2 * i < d) element(x % 4, x / 4) else 0))
    })
  }
}

module towerMachine {
  import prims.* from "./prims"
  import field(Q = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787).* from "./prims"
  import towerAlg.* from "./tower"

  /// registers 0-3 hold elements of Fp, 4-7 of Fp2, 8-10 of Fp6, 11-13 of Fp12
  pure val LEVELS = [1, 1, 1, 1, 2, 2, 2, 2, 6, 6, 6, 12, 12, 12]
  pure def low(d: int): int = if (d == 1) 0 else if (d == 2) 4 else if (d == 6) 8 else 11
  pure def many(d: int): int = if (d <= 2) 4 else 3
  pure def fieldName(d: int): str = if (d == 1) "fp." else if (d == 2) "fp2." else if (d == 6) "fp6." else "fp12."
  pure val FIRST = LEVELS.foldl(List(), (acc, d) => acc.append(tone(d)))

  var fpregs: List[List[int]]
  var op: Op
  var good: bool

  action init = all { fpregs' = FIRST, op' = { name: "tower.init", n: LEVELS, a: [], r: [], ok: "ok" }, good' = true }
  action putReg(o: Op, d: int, v: List[int], g: bool): bool = all { fpregs' = fpregs.replaceAt(d, v), op' = o, good' = g }
  action look(o: Op): bool = all { fpregs' = fpregs, op' = o, good' = true }
  pure def name(d: int, what: int): str =
    if (what == 0) "tower.add" else if (what == 1) "tower.sub" else if (what == 2) "tower.mul" else if (what == 3) "tower.addto"
    else if (what == 4) "tower.subto" else "tower.multo"

  action load(d: int): bool = {
    nondet i = 0.to(many(d) - 1).oneOf()
    nondet how = 0.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val r = low(d) + i
    val v = towerElement(d, how, p)
    putReg(okOp("tower.load", [r], [v], []), r, v, true)
  }
  action bin(d: int): bool = {
    nondet z = 0.to(many(d) - 1).oneOf()
    nondet x = 0.to(many(d) - 1).oneOf()
    nondet y = 0.to(many(d) - 1).oneOf()
    nondet k = 0.to(5).oneOf()
    val l = low(d)
    val a = fpregs[l + x]
    val b = fpregs[l + y]
    val v = if (k % 3 == 0) tadd(a, b) else if (k % 3 == 1) tsub(a, b) else tmul(a, b)
    putReg(okOp(name(d, k), [l + z, l + x, l + y], [], [v]), l + z, v, true)
  }
  /// the second operand is chosen such that the result is a given special element
  action aim(d: int): bool = {
    nondet z = 0.to(many(d) - 1).oneOf()
    nondet x = 0.to(many(d) - 1).oneOf()
    nondet k = 0.to(2).oneOf()
    nondet how = 1.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val l = low(d)
    val a = fpregs[l + x]
    val t = towerElement(d, how, p)
    val b = if (k == 0) tsub(t, a) else if (k == 1) tsub(a, t) else tmul(t, tinv(a))
    val v = if (k == 0) tadd(a, b) else if (k == 1) tsub(a, b) else tmul(a, b)
    putReg(okOp("tower.with", [l + z, l + x, k], [b], [v]), l + z, v, v == t or isZero(a))
  }
  action una(d: int): bool = {
    nondet z = 0.to(many(d) - 1).oneOf()
    nondet x = 0.to(many(d) - 1).oneOf()
    nondet k = 0.to(4).oneOf()
    val l = low(d)
    val a = fpregs[l + x]
    val nm = if (k == 0) "tower.neg" else if (k <= 2) "tower.square" else if (k == 3) "tower.frobenius" else "tower.conjugate"
    val v =
      if (k == 0) tneg(a) else if (k <= 2) tmul(a, a) else if (k == 3) frob(a)
      else if (d == 12) a.slice(0, 6).concat(tneg(a.slice(6, 12)))
      else if (d == 2) conj2(a)
      else a
    if ((d == 1 and k >= 3) or (d == 6 and k == 4)) look(okOp("tower.tests", [l + x], [], [[b2i(isZero(a))]]))
    else putReg(okOp(nm, [l + z, l + x], [], [v]), l + z, v, true)
  }
  action invert(d: int): bool = {
    nondet z = 0.to(many(d) - 1).oneOf()
    nondet x = 0.to(many(d) - 1).oneOf()
    val l = low(d)
    val a = fpregs[l + x]
    if (isZero(a)) look(errOp("tower.invert", [l + z, l + x], []))
    else {
      val v = tinv(a)
      putReg(okOp("tower.invert", [l + z, l + x], [], [v]), l + z, v, tmul(v, a) == tone(d))
    }
  }
  action compare(d: int): bool = {
    nondet x = 0.to(many(d) - 1).oneOf()
    nondet y = 0.to(many(d) - 1).oneOf()
    val l = low(d)
    look(okOp("tower.equal", [l + x, l + y], [], [[b2i(fpregs[l + x] == fpregs[l + y])]]))
  }
  /// one component differs
  action near(d: int): bool = {
    nondet x = 0.to(many(d) - 1).oneOf()
    nondet z = 0.to(many(d) - 1).oneOf()
    nondet i = 0.to(11).oneOf()
    nondet e = 0.to(2).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    val l = low(d)
    val a = fpregs[l + x]
    val v = a.replaceAt(i % d, fadd(a[i % d], if (e == 0) 0 else if (e == 1) element(1, p) else p))
    putReg(okOp("tower.near", [l + z, l + x], [v], [[b2i(v == a)]]), l + z, v, true)
  }
  /// values of a subfield, and the constants
  action embed = {
    nondet z = 4.to(13).oneOf()
    nondet x = 0.to(10).oneOf()
    nondet c = 0.to(3).oneOf()
    val d = LEVELS[z]
    val e = LEVELS[x]
    if (c == 0) putReg(okOp("tower.zero", [z], [], []), z, tzero(d), true)
    else if (c == 1) putReg(okOp("tower.one", [z], [], []), z, tone(d), true)
    else if (e < d) {
      val v = fpregs[x].concat(rep(d - e, 0))
      putReg(okOp("tower.embed", [z, x], [], [v]), z, v, true)
    }
    else look(okOp("tower.tests", [x], [], [[b2i(isZero(fpregs[x]))]]))
  }
  action byNonresidue(d: int): bool = {
    nondet z = 0.to(many(d) - 1).oneOf()
    nondet x = 0.to(many(d) - 1).oneOf()
    val l = low(d)
    val v = if (d == 2) xi(fpregs[l + x]) else byT(fpregs[l + x])
    putReg(okOp("tower.nonresidue", [l + z, l + x], [], [v]), l + z, v, true)
  }
  /// products with an element most of whose coefficients are zero
  action sparse = {
    nondet z = 0.to(2).oneOf()
    nondet x = 0.to(2).oneOf()
    nondet i = 4.to(7).oneOf()
    nondet j = 4.to(7).oneOf()
    nondet k = 4.to(7).oneOf()
    nondet w = 0.to(3).oneOf()
    val a = fpregs[i]
    val b = fpregs[j]
    val c = fpregs[k]
    if (w == 0) {
      val v = tmul(fpregs[8 + x], [0, 0].concat(a).concat([0, 0]))
      putReg(okOp("tower.by1", [8 + z, 8 + x, i], [], [v]), 8 + z, v, true)
    } else if (w == 1) {
      val v = tmul(fpregs[8 + x], a.concat(b).concat([0, 0]))
      putReg(okOp("tower.by01", [8 + z, 8 + x, i, j], [], [v]), 8 + z, v, true)
    } else {
      val v = tmul(fpregs[11 + x], a.concat(b).concat([0, 0, 0, 0]).concat(c).concat([0, 0]))
      putReg(okOp("tower.by014", [11 + z, 11 + x, i, j, k], [], [v]), 11 + z, v, true)
    }
  }
  action power(d: int): bool = {
    nondet z = 0.to(3).oneOf()
    nondet x = 0.to(3).oneOf()
    nondet c = 0.to(4).oneOf()
    nondet q = 0.to(2^384 - 1).oneOf()
    val l = low(d)
    val e = if (c == 0) q % 8 else if (c == 1) 2^(q % 384) else if (c == 2) 2^384 - 1 else if (c == 3) ORD - 1 + q % 2 else q
    val v = tpow(fpregs[l + x], e)
    putReg(okOp("tower.pow", [l + z, l + x], [[e]], [v]), l + z, v, true)
  }
  /// a root exists exactly for squares; which of the two is not specified
  action root(d: int): bool = {
    nondet x = 0.to(3).oneOf()
    val a = fpregs[low(d) + x]
    if (if (d == 1) fIsSquare(a[0]) else isSquare2(a)) look(okOp("tower.sqrt", [low(d) + x], [], [a]))
    else look(errOp("tower.sqrt", [low(d) + x], []))
  }
  action rootOfSquare(d: int): bool = {
    nondet x = 0.to(3).oneOf()
    nondet neg = 0.to(3).oneOf()
    // in Fp2 also the square of an element with one zero component, whose root is in the other half
    val a0 = fpregs[low(d) + x]
    val a = if (d == 1 or neg > 1) a0 else if (neg == 0) [a0[0], 0] else [0, a0[1]]
    look(okOp("tower.sqrtsq", [low(d)], [tmul(a, a)], [a, tneg(a)]))
  }
  action larger1(d: int): bool = {
    nondet x = 0.to(3).oneOf()
    nondet z = 0.to(3).oneOf()
    nondet c = 0.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val h = (ORD - 1) / 2
    val near0 = (h + p % 5 - 2) % ORD
    // around the middle, also with one word of it changed
    val word = (h + 2^(64 * (p % 6))) % ORD
    val wordm = if (h > 2^(64 * (p % 6))) h - 2^(64 * (p % 6)) else h
    val y = if (c == 0) near0 else if (c == 1) word else if (c == 2) wordm else if (c == 3) 0 else if (c == 4) element(2, p) else p
    val v = if (d == 1) [y] else if (p % 3 == 0) [y, 0] else if (p % 3 == 1) [fpregs[x][0], y] else [y, fpregs[x][0]]
    putReg(okOp("tower.larger", [low(d) + z], [v], [[b2i(larger(v))]]), low(d) + z, v, true)
  }
  /// integers around the places where the range test decides
  action decode = {
    nondet z = 0.to(3).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet p = 0.to(2^384 - 1).oneOf()
    val v =
      if (c == 0) ORD + p % 9 - 4
      else if (c == 1) (ORD + 2^(p % 384)) % 2^384
      else if (c == 2) (ORD + 2^384 - 1 - 2^(p % 384)) % 2^384
      else if (c == 3) 2^384 - 1 - p % 3
      else if (c == 4) pattern(p)
      else if (c == 5) element(p % 4, p / 4)
      else if (c == 6) 2 * ORD + p % 3 - 1
      else p
    if (v < ORD) putReg(okOp("tower.decode", [z], [[v]], [[v]]), z, [v], true)
    else look(errOp("tower.decode", [z], [[v]]))
  }
  action common(d: int): bool = {
    nondet kind = 0.to(15).oneOf()
    if (kind <= 3) load(d)
    else if (kind <= 7) bin(d)
    else if (kind <= 9) una(d)
    else if (kind <= 11) aim(d)
    else if (kind == 12) invert(d)
    else if (kind == 13) compare(d)
    else if (kind == 14) near(d)
    else if (d == 1 or d == 12) load(d)
    else byNonresidue(d)
  }
  action special(d: int): bool = {
    nondet kind = 0.to(3).oneOf()
    if (kind == 0) power(d)
    else if (kind == 1) root(d)
    else if (kind == 2) rootOfSquare(d)
    else larger1(d)
  }
  action step = {
    nondet d = 0.to(5).oneOf()
    nondet kind = 0.to(4).oneOf()
    if (d == 0) { if (kind <= 2) common(1) else if (kind == 3) special(1) else decode }
    else if (d == 1) { if (kind <= 2) common(2) else special(2) }
    else if (d == 2) common(6)
    else if (d == 3) common(12)
    else if (d == 4) sparse
    else { if (kind <= 2) embed else load(2) }
  }
  /// inverses multiply to one, aimed results are met, and all coefficients are canonical
  val inv = good and fpregs.foldl(true, (acc, r) => acc and r.foldl(true, (b, x) => b and x >= 0 and x < ORD))
}

module towerTest {
  import prims.* from "./prims"
  import field(Q = 4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787).* from "./prims"
  import towerAlg.* from "./tower"

  /// the closed form of the Frobenius map is the p-th power; the fields have p^d elements
  run frobeniusIsPowerTest = {
    val x = towerElement(6, 0, 4711)
    val y = towerElement(12, 0, 1147)
    val z = towerElement(2, 0, 31)
    all {
      assert(tpow(z, ORD) == frob(z)),
      assert(tpow(x, ORD) == frob(x)),
      assert(tpow(y, ORD) == frob(y)),
      assert(range(0, 12).foldl(y, (a, i) => frob(a)) == y),
      assert(range(0, 6).foldl(y, (a, i) => frob(a)) == y.slice(0, 6).concat(tneg(y.slice(6, 12)))),
      assert(range(0, 4).foldl(y, (a, i) => frob(a)) != y),
    }
  }
  run ringLawsTest = {
    val x = towerElement(12, 0, 5)
    val y = towerElement(12, 4, 6)
    val z = towerElement(12, 0, 7)
    all {
      assert(tmul(x, tmul(y, z)) == tmul(tmul(x, y), z)),
      assert(tmul(x, tadd(y, z)) == tadd(tmul(x, y), tmul(x, z))),
      assert(tmul(x, y) == tmul(y, x)),
      assert(tmul(tone(12), x) == x),
      assert(tmul(frob(x), frob(y)) == frob(tmul(x, y))),
      assert(flat(unflat(x)) == x),
      // w^2 = v: multiplying twice by w multiplies both halves by v
      assert(byT(byT(x)) == byT(x.slice(0, 6)).concat(byT(x.slice(6, 12)))),
    }
  }
}
