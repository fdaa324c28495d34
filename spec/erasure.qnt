/// Vanishing polynomials and recovery from samples (properties C22 and C23).

/// Sets of positions and their vanishing polynomials.
module positions {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import dft.* from "./fft"

  /// positions i < n with bit i of x set
  pure def bits(x: int, n: int): List[int] =
    range(0, n).foldl((x, List()), (st, i) => (st._1 / 2, if (st._1 % 2 == 1) st._2.append(i) else st._2))._2
  pure def flip(x: int, n: int): int = 2^n - 1 - x
  /// conjunction and disjunction of bit patterns, to make sparse and dense patterns
  pure def andBits(x: int, y: int, n: int): int =
    range(0, n).foldl((x, y, 1, 0), (st, i) =>
      (st._1 / 2, st._2 / 2, 2 * st._3, if (st._1 % 2 == 1 and st._2 % 2 == 1) st._4 + st._3 else st._4))._4
  pure def block(a: int, m: int, n: int): List[int] = range(0, m).foldl(List(), (acc, i) => acc.append((a + i) % n))
  /// the same positions in another order
  pure def reorder(l: List[int], k: int): List[int] = {
    val m = l.length()
    if (k == 0 or m == 0) l
    else if (k == 1) rev(l)
    else { val a = if (k == 2) 7 else if (k == 3) 31 else 101
           if (m % a == 0) rev(l) else range(0, m).foldl(List(), (acc, i) => acc.append(l[(i * a) % m])) }
  }
  /// positions that are not in the list
  pure def others(l: List[int], n: int): List[int] = {
    val s = l.foldl(Set(), (acc, x) => acc.union(Set(x)))
    range(0, n).foldl(List(), (acc, i) => if (s.contains(i)) acc else acc.append(i))
  }

  /// product of (X - w^i) over the positions
  pure def vanish(l: List[int], w: int): List[int] =
    l.foldl([1], (p, i) => {
      val z = fneg(fpow(w, i))
      range(0, p.length() + 1).foldl(List(), (acc, j) => acc.append(fadd(if (j > 0) p[j - 1] else 0, if (j < p.length()) fmul(z, p[j]) else 0)))
    })
  /// p / (X - z), exact
  pure def divOut(p: List[int], z: int): List[int] = {
    val m = p.length()
    rev(range(0, m - 1).foldl((List(), 0), (st, i) => {
      val c = fadd(p[m - 1 - i], fmul(z, st._2))
      (st._1.append(c), c)
    })._1)
  }
  /// the vanishing polynomial of all positions but the given ones
  pure def vanishBut(known: List[int], n: int, w: int): List[int] = {
    val whole = [ORD - 1].concat(rep(n - 1, 0)).append(1)
    known.foldl(whole, (p, i) => divOut(p, fpow(w, i)))
  }
  /// its value at w^k for a k in known: derivative of X^n - 1 at w^k, divided by the other factors
  pure def valueBut(known: List[int], k: int, n: int, w: int): int = {
    val x = fpow(w, k)
    val den = known.foldl(1, (acc, j) => if (j == k) acc else fmul(acc, fsub(x, fpow(w, j))))
    fmul(fmul(n, finv(x)), finv(den))
  }
  /// values of p at all powers of w (of order n)
  pure def values(p: List[int], n: int, w: int): List[int] = {
    val pw = powers(w, n)
    range(0, n).foldl(List(), (acc, j) => acc.append(range(0, p.length()).foldl(0, (s, i) => s + p[i] * pw[(i * j) % n]) % ORD))
  }
  /// the product of X^(n/s) - w^(r n/s) over the residues rs: vanishes at the positions = r modulo s
  pure def vanishResidues(rs: List[int], s: int, n: int, w: int): List[int] = {
    val m = n / s
    val small = vanish(rs, fpow(w, m))
    range(0, n).foldl(List(), (acc, i) => acc.append(if (i % m == 0 and i / m < small.length()) small[i / m] else 0))
  }
  pure def valuesResidues(rs: List[int], s: int, n: int, w: int): List[int] = {
    val m = n / s
    val small = vanish(rs, fpow(w, m))
    val vs = range(0, s).foldl(List(), (acc, j) => acc.append(peval(small, fpow(w, m * j))))
    range(0, n).foldl(List(), (acc, j) => acc.append(vs[j % s]))
  }
  /// any values at the known positions are those of exactly one polynomial with that many coefficients; its values at
  /// the lost positions are, with V the polynomial vanishing there and d its derivative,
  /// f(y) = (sum over known x of f(x) x V(x) / (y - x)) / (y d(y))
  pure def filled(v: List[int], lost: List[int], n: int, w: int): List[int] = {
    val pw = powers(w, n)
    val kept = others(lost, n)
    val z = vanish(lost, w)
    val d = range(1, z.length()).foldl(List(), (acc, i) => acc.append(fmul(i, z[i])))
    val weights = kept.foldl(List(), (acc, i) => acc.append(fmul(v[i], fmul(pw[i], peval(z, pw[i])))))
    lost.foldl(v, (acc, i) => {
      val den = finvAll(kept.foldl(List(), (l, j) => l.append(fsub(pw[i], pw[j]))))
      acc.replaceAt(i, fdiv(dot(weights, den), fmul(pw[i], peval(d, pw[i]))))
    })
  }
}

module zeroMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"
  import positions.* from "./erasure"

  var calls: int
  var op: Op
  action init = all { calls' = 0, op' = NoOp }
  action say(o: Op): bool = all { calls' = calls + 1, op' = o }

  pure def zeroOp(k: int, d: int, l: List[int], ord: int): Op = {
    val n = 2^k
    val w = root(k)
    val p = vanish(l, w)
    okOp("zero.poly", [k + d, n], [reorder(l, ord)], [values(p, n, w), padTo(p, n)])
  }
  /// any set of positions
  action anySet = {
    nondet k = 1.to(7).oneOf()
    nondet d = 0.to(3).oneOf()
    nondet x = 0.to(2^128).oneOf()
    nondet y = 0.to(2^128).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet ord = 0.to(4).oneOf()
    val n = 2^k
    val l = bits(if (c == 0) x else if (c == 1) andBits(x, y, n) else if (c == 2) flip(andBits(x, y, n), n) else flip(andBits(x, andBits(y, x / 8, n), n), n), n)
    if (l.length() == n) say(errOp("zero.poly", [k + d, n], [l]))
    else if (l.length() == 0) say(okOp("zero.poly", [k + d, n], [l], [[], []]))
    else say(zeroOp(k, d, l, ord))
  }
  /// sizes at which the number of partial products changes
  pure val COUNTS = [1, 2, 62, 63, 64, 65, 125, 126, 127, 128, 188, 189, 190, 191, 251, 252, 253, 254, 255]
  action counted = {
    nondet k = 6.to(8).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet m = 0.to(18).oneOf()
    nondet a = 0.to(255).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet ord = 0.to(4).oneOf()
    val n = 2^k
    val l = if (b == 0) block(a, COUNTS[m], n) else range(0, COUNTS[m]).foldl(List(), (acc, i) => acc.append((a + 37 * i) % n))
    if (COUNTS[m] >= n) say(errOp("zero.poly", [k + d, n], [l]))
    else say(zeroOp(k, d, l, ord))
  }
  /// nearly everything, in larger domains
  action almostAll = {
    nondet k = 6.to(10).oneOf()
    nondet d = 0.to(1).oneOf()
    nondet j = 1.to(9).oneOf()
    nondet p = 0.to(2^80).oneOf()
    nondet ord = 0.to(4).oneOf()
    val n = 2^k
    val w = root(k)
    val known = range(0, j).foldl(List(), (acc, i) => acc.append((p / (2 * i + 1)) % n)).foldl(List(), (acc, x) => if (member(acc, x)) acc else acc.append(x))
    val l = others(known, n)
    val ev = range(0, n).foldl(List(), (acc, i) => acc.append(if (member(known, i)) valueBut(known, i, n, w) else 0))
    say(okOp("zero.poly", [k + d, n], [reorder(l, ord)], [ev, padTo(vanishBut(known, n, w), n)]))
  }
  /// the same in the largest domains, with counts around multiples of the size of a partial product
  action almostAllHuge = {
    nondet k = 11.to(13).oneOf()
    nondet j = 0.to(5).oneOf()
    nondet p = 0.to(2^80).oneOf()
    nondet ord = 0.to(4).oneOf()
    val n = 2^k
    val w = root(k)
    val cnt = if (k == 11) [1, 2, 31, 32, 33, 8][j] else [1, 2, 3, 4, 1, 2][j]
    val known = range(0, cnt).foldl(List(), (acc, i) => acc.append((p + i * 61) % n))
    val l = others(known, n)
    val ks = known.foldl(Set(), (acc, x) => acc.union(Set(x)))
    val ev = range(0, n).foldl(List(), (acc, i) => acc.append(if (ks.contains(i)) valueBut(known, i, n, w) else 0))
    say(okOp("zero.poly", [k, n], [reorder(l, ord)], [ev, padTo(vanishBut(known, n, w), n)]))
  }
  /// unions of residue classes
  action residues = {
    nondet k = 7.to(12).oneOf()
    nondet d = 0.to(1).oneOf()
    nondet e = 1.to(5).oneOf()
    nondet x = 1.to(2^32 - 1).oneOf()
    nondet ord = 0.to(4).oneOf()
    val n = 2^k
    val s = 2^e
    val w = root(k)
    val rs0 = bits(x % 2^s, s)
    val rs = if (rs0.length() == 0) [1] else if (rs0.length() == s) take(rs0, s - 1) else rs0
    val rset = rs.foldl(Set(), (acc, r) => acc.union(Set(r)))
    val l = range(0, n).foldl(List(), (acc, i) => if (rset.contains(i % s)) acc.append(i) else acc)
    say(okOp("zero.poly", [k + d, n], [reorder(l, ord)], [valuesResidues(rs, s, n, w), vanishResidues(rs, s, n, w)]))
  }
  /// a union of residue classes and a few more positions
  action residuesPlus = {
    nondet k = 7.to(11).oneOf()
    nondet e = 1.to(5).oneOf()
    nondet x = 1.to(2^32 - 1).oneOf()
    nondet p = 0.to(2^60).oneOf()
    nondet ord = 0.to(4).oneOf()
    val n = 2^k
    val s = 2^e
    val w = root(k)
    val rs0 = bits(x % 2^s, s)
    val rs = if (rs0.length() == 0) [1] else if (rs0.length() == s) take(rs0, s - 1) else rs0
    val rset = rs.foldl(Set(), (acc, r) => acc.union(Set(r)))
    val more = range(0, 4).foldl(List(), (acc, i) => {
      val j = (p / (3 * i + 1)) % n
      if (rset.contains(j % s) or member(acc, j)) acc else acc.append(j)
    })
    val l = range(0, n).foldl(List(), (acc, i) => if (rset.contains(i % s)) acc.append(i) else acc).concat(more)
    val base = vanishResidues(rs, s, n, w)
    val cut = range(0, n).foldl(0, (acc, i) => if (base[i] != 0) i + 1 else acc)
    val poly = pmul(take(base, cut), vanish(more, w))
    val bv = valuesResidues(rs, s, n, w)
    val ev = range(0, n).foldl((List(), 1), (st, i) =>
      (st._1.append(if (bv[i] == 0) 0 else more.foldl(bv[i], (acc, j) => fmul(acc, fsub(st._2, fpow(w, j))))), fmul(st._2, w)))._1
    if (l.length() >= n) say(errOp("zero.poly", [k, n], [l]))
    else say(okOp("zero.poly", [k, n], [reorder(l, ord)], [ev, padTo(poly, n)]))
  }
  action bad = {
    nondet k = 0.to(7).oneOf()
    nondet c = 0.to(5).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet p = 0.to(1000).oneOf()
    // c: everything missing, more than everything, no power of two, wider than the settings, a position outside
    val n = if (c <= 1) 2^k else if (c == 2) 3 * (1 + p % 40) else 2^(k + 1)
    val m = if (c == 0) n else if (c == 1) n + 1 + p % 5 else 1 + p % (n - 1)
    if (c <= 3) say(errOp("zero.poly", [if (c == 2) 8 else k, n], [range(0, m)]))
    else say(refOp("zero.poly", [k + 1 + d, n], [range(0, m).replaceAt((p / 7) % m, if (p % 3 == 0) n else n + 1 + p % (4 * n))]))
  }
  /// a product of linear factors, positions given in units of a stride
  action partial = {
    nondet k = 0.to(8).oneOf()
    nondet e = 0.to(8).oneOf()
    nondet p = 0.to(2^80).oneOf()
    nondet m = 0.to(66).oneOf()
    val st = 2^min(e, k)
    val n = 2^k / st
    val l = range(0, m).foldl(List(), (acc, i) => acc.append((p + i * (2 * (p / 7) + 1)) % n))
    if (m == 0) say(errOp("zero.partial", [k, st], [l]))
    else say(okOp("zero.partial", [k, st], [l], [vanish(l, root(k - log2(st)))]))
  }
  /// products of given polynomials
  action reduce = {
    nondet k = 0.to(8).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet cnt = 1.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet c = 0.to(5).oneOf()
    val n = 2^k
    // degrees chosen so that the product fits exactly, has room or does not fit
    val each = max(0, (n - 1) / cnt)
    val ls = range(0, cnt).foldl(List(), (acc, i) => acc.append({
      val m = if (c == 0) each else if (c == 1) (p / (i + 1)) % (each + 1) else if (c == 2 and i == 0) n - 1 - each * (cnt - 1)
              else if (c == 3) each + 1 else min(each, 5)
      shape((p / 7 + i) % NSHAPES, p + i, m + 1)
    }))
    val deg = ls.foldl(0, (s, l) => s + l.length() - 1)
    if (deg + 1 > n) say(errOp("zero.reduce", [k + d, n], ls))
    else say(okOp("zero.reduce", [k + d, n], ls, [ls.foldl([1], (q, l) => pmul(q, l))]))
  }
  action reduceBad = {
    nondet k = 1.to(6).oneOf()
    nondet n = 1.to(60).oneOf()
    if (isPow2(n)) say(NoOp)
    else say(errOp("zero.reduce", [k + 6, n], [[1, 1]]))
  }
  action step = {
    nondet kind = 0.to(19).oneOf()
    if (kind <= 6) anySet else if (kind <= 8) bad else if (kind <= 12) partial else if (kind <= 16) reduce else if (kind == 17) reduceBad
    else if (kind == 18) counted else residues
  }
  action stepTree = {
    nondet kind = 0.to(5).oneOf()
    if (kind <= 1) counted else if (kind == 2) almostAll else if (kind == 3) residues else residuesPlus
  }
  /// evaluations are the values of the polynomial, and zero exactly at the positions
  val vanishes =
    if (op.name == "zero.poly" and op.ok == "ok" and op.a[0].length() > 0) {
      val n = op.n[1]
      val s = op.a[0].foldl(Set(), (acc, x) => acc.union(Set(x)))
      range(0, n).foldl(true, (acc, i) => acc and ((op.r[0][i] == 0) == s.contains(i)))
        and peval(op.r[1], fpow(root(log2(n)), n - 1)) == op.r[0][n - 1]
        and peval(op.r[1], fpow(root(log2(n)), n / 2)) == op.r[0][n / 2]
    } else true
}

/// C23: a codeword, the positions that are still known, and recovery
module recoverMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"
  import positions.* from "./erasure"

  /// the codeword: values of a polynomial with fewer than `degree` coefficients
  var regs: List[int]
  var degree: int
  var missing: List[int]
  /// a set that is to be lost later, because the data are related to it
  var planned: List[int]
  var op: Op
  action init = all { regs' = [3], degree' = 1, missing' = [], planned' = [], op' = okOp("rec.encode", [0], [[3]], []) }
  action keep(o: Op): bool = all { regs' = regs, degree' = degree, missing' = missing, planned' = planned, op' = o }
  action encoded(o: Op, v: List[int], dg: int): bool = all { regs' = v, degree' = dg, missing' = [], planned' = [], op' = o }

  /// data of c coefficients in a domain of n positions
  action encode = {
    nondet k = 0.to(6).oneOf()
    nondet c = 0.to(5).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^k
    val dg = if (c <= 1 or c >= 4) max(1, n / 2) else if (c == 2) 1 + p % n else n
    // the coefficients, or the values at the even positions, have the shape
    val coeffs = if (c >= 4) dftInv(shape(s, p, dg)) else shape(s, p, dg)
    val v = dftFwd(padTo(coeffs, n))
    encoded(okOp("rec.encode", [k], [padTo(coeffs, n)], []), v, dg)
  }
  /// the data are a multiple of the polynomial that vanishes on a set, which is lost later
  action encodeVanishing = {
    nondet k = 1.to(6).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet x = 0.to(2^64).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    val n = 2^k
    val l = take(if (c <= 1) bits(x % 2^n, n) else block(x % n, 1 + (x / n) % n, n), max(1, n / 2 - 1))
    val m = if (l.length() == 0) [0] else l
    val f = if (c % 2 == 0) 1 else p
    val coeffs = scaleBy(padTo(vanish(m, root(k)), n), f)
    all { regs' = dftFwd(coeffs), degree' = m.length() + 1, missing' = [], planned' = m, op' = okOp("rec.encode", [k], [coeffs], []) }
  }
  /// samples without any relation to data: the values at the known positions have the shape
  action given = {
    nondet k = 1.to(5).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet x = 0.to(2^64).oneOf()
    nondet e = 0.to(2).oneOf()
    val n = 2^k
    val m = 1 + (x / n) % min(4, n - 1)
    val l = if (c == 0) bits(x % 2^n, n) else if (c <= 2) block(n - m, m, n) else if (c == 3) block(0, m, n) else if (c == 4) block(x % n, m, n)
            else if (c == 5) range(0, n / 2).foldl(List(), (acc, i) => acc.append(2 * i + x % 2))
            else if (c == 6) block((x % 2) * n / 2, n / 2, n) else others(block(x % n, m, n), n)
    val lost = take(if (l.length() == 0) [x % n] else l, n - 1)
    val m2 = range(0, n).foldl(List(), (acc, i) => if (member(lost, i)) acc.append(i) else acc)
    val v = filled(shape(s, p, n), m2, n, root(k))
    all { regs' = v, degree' = n - m2.length(), missing' = m2, planned' = m2,
          op' = okOp("rec.given", [k + e], [shape(s, p, n), m2], []) }
  }
  action encodeLarge = {
    nondet k = 7.to(11).oneOf()
    nondet c = 0.to(2).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^k
    val dg = if (c == 0) n / 2 else if (c == 1) 1 + p % n else n - 1
    val w = root(k)
    if (b == 0) {
      val m = 1 + (p / 5) % dg
      encoded(okOp("rec.encode", [k], [geoCoeffs(p, p, m, n)], []), geoValues(p, p, m, 1, w, n), dg)
    } else {
      val vs = [p, ORD - 1, 5]
      val es = [p % dg, (p / n) % dg, dg - 1]
      encoded(okOp("rec.encode", [k], [sparseCoeffs(vs, es, n)], []), sparseValues(vs, es, 1, w, n), dg)
    }
  }
  /// lose samples, so that at least `degree` remain
  action lose = {
    nondet x = 0.to(2^2048).oneOf()
    nondet y = 0.to(2^2048).oneOf()
    nondet c = 0.to(11).oneOf()
    val n = regs.length()
    val l = if (c >= 9 and planned.length() > 0) planned else if (c == 0 or c >= 9) bits(x, n) else if (c == 1) bits(andBits(x, y, n), n) else if (c == 2) bits(flip(andBits(x, y, n), n), n)
            else if (c == 3) block(x % n, n - degree, n) else if (c == 4) block(0, n - degree, n)
            else if (c == 5) block(degree, n - degree, n)
            else if (c == 6) range(0, n / 2).foldl(List(), (acc, i) => acc.append(2 * i + x % 2))
            else if (c == 7) block(x % n, min(1, n - degree), n)
            else others(block(x % n, degree, n), n)
    val kept = l.foldl(Set(), (acc, i) => if (acc.size() < n - degree) acc.union(Set(i)) else acc)
    val m = range(0, n).foldl(List(), (acc, i) => if (kept.contains(i)) acc.append(i) else acc)
    all { regs' = regs, degree' = degree, planned' = planned, missing' = m, op' = okOp("rec.lose", [], [m], []) }
  }
  action recover = {
    nondet d = 0.to(3).oneOf()
    val k = log2(regs.length())
    keep(okOp("rec.recover", [k + d], [], []))
  }
  /// everything missing, domain wider than the settings, length no power of two
  action bad = {
    nondet k = 0.to(6).oneOf()
    nondet c = 0.to(2).oneOf()
    nondet p = 0.to(1000).oneOf()
    val n = if (c == 0) 2^k else if (c == 1) 2^(k + 1) else 3 * (1 + p % 20)
    val m = if (c == 0) range(0, n) else if (c == 1) [p % n] else [p % n]
    keep(refOp("rec.bad", [if (c == 2) 7 else k, n], [m]))
  }
  action step = {
    nondet kind = 0.to(18).oneOf()
    if (kind >= 16) given else if (kind <= 2) encode else if (kind == 3) encodeVanishing else if (kind <= 7) lose else if (kind <= 13) recover else bad
  }
  action stepLarge = {
    nondet kind = 0.to(9).oneOf()
    if (kind <= 1) encodeLarge else if (kind <= 4) lose else recover
  }
  /// enough samples are known at any time
  val determined = regs.length() - missing.length() >= degree
}
