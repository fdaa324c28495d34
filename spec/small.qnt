/// Small instances, all of them (properties C09, C11 - C25, C28).
///
/// The other machines choose at random.  This one counts: its state is a number, every step is the call with that
/// number, and one long run of it, or eight runs each taking every eighth number, make every call there is within
/// the bounds.  The bounds are on lengths and on the values that may occur in a vector: an alphabet of three.
module smallMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import dft.* from "./fft"
  import positions.* from "./erasure"
  import kzgalg.* from "./kzg"

  var place: int
  var stride: int
  var alpha: List[int]
  var secret: int
  var g1regs: List[int]
  var op: Op

  pure val SCALE = 5
  pure val POINTS = 17

  action begin(at: int, by: int, al: List[int], s: int): bool = all {
    place' = at, stride' = by, alpha' = al, secret' = s, g1regs' = [0],
    op' = okOp("kzg.start", [SCALE, POINTS, 1], [[s], []], []),
  }
  /// the letters 0, 1 and -1
  action part(at: int): bool = {
    nondet s = 2.to(ORD - 1).oneOf()
    begin(at, 8, [0, 1, ORD - 1], s)
  }
  action whole = {
    nondet s = 2.to(ORD - 1).oneOf()
    begin(0, 1, [0, 1, ORD - 1], s)
  }
  action part0 = part(0)
  action part1 = part(1)
  action part2 = part(2)
  action part3 = part(3)
  action part4 = part(4)
  action part5 = part(5)
  action part6 = part(6)
  action part7 = part(7)
  /// other letters, and a piece of an enumeration that is too long to be gone through as a whole
  action piece = {
    nondet s = 0.to(ORD - 1).oneOf()
    nondet a = 0.to(ORD - 1).oneOf()
    nondet b = 0.to(ORD - 1).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet at = 0.to(2^40).oneOf()
    begin(at, 1, if (c <= 2) [0, 1, ORD - 1] else if (c == 3) [0, a, fneg(a)] else if (c == 4) [0, a, s] else if (c == 5) [1, a, b]
              else if (c == 6) [0, a, b] else [ORD - 1, 2, a], if (s < 2) 2 else s)
  }
  action init = whole

  action say(o: Op): bool = all { place' = place + stride, stride' = stride, alpha' = alpha, secret' = secret, g1regs' = g1regs, op' = o }

  /// --- words: there are OFFS[l] words of fewer than l letters
  pure val OFFS = [0, 1, 4, 13, 40, 121, 364, 1093, 3280]
  pure def letters(t: int, l: int, al: List[int]): List[int] =
    range(0, l).foldl((t, List()), (st, i) => (st._1 / 3, st._2.append(al[st._1 % 3])))._2
  pure def word(t: int, al: List[int]): List[int] = {
    val l = range(0, 9).foldl(0, (acc, i) => if (t >= OFFS[i]) i else acc)
    letters(t - OFFS[l], l, al)
  }
  /// words of 1, 2, 4 and 8 letters: the logarithm of the length and the rest of the number
  pure val DOUBLES = [0, 3, 12, 93, 6654]
  pure def doubled(t: int): (int, int) = {
    val k = range(0, 4).foldl(0, (acc, i) => if (t >= DOUBLES[i]) i else acc)
    (k, t - DOUBLES[k])
  }
  /// b with a b = 1 modulo X^n
  pure def series(a: List[int], n: int): List[int] = {
    val f = finv(a[0])
    span(1, n).foldl([f], (b, k) =>
      b.append(fmul(fneg(f), span(1, min(k + 1, a.length())).foldl(0, (s, j) => s + a[j] * b[k - j]) % ORD)))
  }
  pure def spots(s: int): List[int] = [1, ORD - 1, 2, root(2), root(3), s, finv(2), 0]

  /// --- C13: polynomials of at most 5 coefficients at 8 points (364 x 8)
  action evals = {
    val t = place % 2912
    val p = word(t / 8, alpha)
    val x = spots(secret)[t % 8]
    say(okOp("poly.evalnew", [0], [p, [x]], [[peval(p, x)]]))
  }
  /// --- C14: products of polynomials of 1 to 4 coefficients, cut to every length (120 x 120)
  action products = {
    val t = place % 14400
    val a = word(1 + t / 120, alpha)
    val b = word(1 + t % 120, alpha)
    say(okOp("poly.muleach", [10], [a, b], [pmulTrunc(a, b, 10)]))
  }
  /// --- C15: polynomials of at most 5 coefficients divided by those of 1 to 3 (364 x 39), with the dividend as it is and
  /// without its leading zeros
  action quotients = {
    val t = place % 14196
    val a = word(t / 39, alpha)
    val b = word(1 + t % 39, alpha)
    if (last(b) == 0) say(NoOp) else say(okOp("poly.diveach", [], [a, b], [pdivmod(a, b)._1, pdivmod(norm(a), b)._1]))
  }
  /// --- C16: series of polynomials of 1 to 6 coefficients, to 1 .. 9 coefficients (1092)
  action inverses = {
    val a = word(1 + place % 1092, alpha)
    if (a[0] == 0) say(errOp("poly.inveach", [9], [a])) else say(okOp("poly.inveach", [9], [a], [series(a, 9)]))
  }
  /// --- C11, C12, C21: vectors of 1, 2, 4 and 8 (6654)
  action transforms = {
    val w = doubled(place % 6654)
    val v = letters(w._2, 2^w._1, alpha)
    say(okOp("fft.each", [w._1 + (place / 3) % 2], [v], [dftFwd(v), dftInv(v)]))
  }
  action groupTransforms = {
    val w = doubled(place % 6654)
    val v = letters(w._2, 2^w._1, alpha)
    say(okOp("fft.g1each", [w._1 + (place / 3) % 2], [v], [dftFwd(v), dftInv(v)]))
  }
  action extensions = {
    val w = doubled(place % 6654)
    val v = letters(w._2, 2^w._1, alpha)
    say(okOp("das.new", [w._1 + 1 + (place / 3) % 2], [v], [oddValues(v)]))
  }
  /// --- C22: the sets of positions of 2, 4 and 8, in settings of the size and of twice the size (2 x 276); those of 16 (65536)
  pure def setOp(k: int, d: int, x: int): Op = {
    val n = 2^k
    val l = bits(x, n)
    val z = vanish(l, root(k))
    if (l.length() == n) errOp("zero.poly", [k + d, n], [l])
    else if (l.length() == 0) okOp("zero.poly", [k + d, n], [l], [[], []])
    else okOp("zero.poly", [k + d, n], [reorder(l, x % 2)], [values(z, n, root(k)), padTo(z, n)])
  }
  action zeros = {
    val t = place % 552
    val x = t / 2
    say(if (x < 4) setOp(1, t % 2, x) else if (x < 20) setOp(2, t % 2, x - 4) else setOp(3, t % 2, x - 20))
  }
  action zeros16 = say(setOp(4, 0, place % 65536))
  /// --- C23: every position of 2 and of 4 holds a letter or is lost (16 + 256); the same for 8 (65536); the sets of 16, with one vector
  pure def lossOp(k: int, d: int, t: int, al: List[int]): Op = {
    val n = 2^k
    val digits = range(0, n).foldl((t, List()), (st, i) => (st._1 / 4, st._2.append(st._1 % 4)))._2
    val lost = range(0, n).foldl(List(), (acc, i) => if (digits[i] == 3) acc.append(i) else acc)
    val v = digits.foldl(List(), (acc, x) => acc.append(if (x == 3) 0 else al[x]))
    if (lost.length() == 0) NoOp
    else if (lost.length() == n) refOp("rec.bad", [k + d, n], [lost])
    else { val r = filled(v, lost, n, root(k))
           okOp("rec.new", [k + d], [r, lost], [r]) }
  }
  action losses = {
    val t = place % 544
    val x = t / 2
    say(if (x < 16) lossOp(1, t % 2, x, alpha) else lossOp(2, t % 2, x - 16, alpha))
  }
  action losses8 = say(lossOp(3, place % 2, place % 65536, alpha))
  action losses16 = {
    val lost = bits(place % 65536, 16)
    if (lost.length() == 0 or lost.length() == 16) say(NoOp)
    else { val r = filled(prand(secret + place / 65536, 16), lost, 16, root(4))
           say(okOp("rec.new", [4], [r, lost], [r])) }
  }
  /// --- C09: combinations of at most 3 points among 0, 1, -1 with scalars 0, 1, -1 and 2 (12 + 144 + 1728)
  action combinations = {
    val t = place % 1884
    val l = if (t < 12) 1 else if (t < 156) 2 else 3
    val x = t - (if (l == 1) 0 else if (l == 2) 12 else 156)
    val digits = range(0, l).foldl((x, List()), (st, i) => (st._1 / 12, st._2.append(st._1 % 12)))._2
    val ps = digits.foldl(List(), (acc, y) => acc.append(alpha[y % 3]))
    val cs = digits.foldl(List(), (acc, y) => acc.append([0, 1, ORD - 1, 2][y / 3]))
    all { place' = place + stride, stride' = stride, alpha' = alpha, secret' = secret, g1regs' = [dot(ps, cs)], op' = okOp("kzg.points", [0, t % 5], [ps, cs], []) }
  }
  /// --- C17, C19: polynomials of 1 to 4 coefficients, opened at one of 8 points or on the coset of 1, 2 or 4 points (120 x 8 x 4)
  pure def openOp(t: int, single: bool, al: List[int], s: int): Op = {
    val p = word(1 + t / 24, al)
    val n = if (single) 1 else 2^(t % 3)
    val x = spots(s)[(t / 3) % 8]
    // no coset contains 0
    val y = if (x == 0 and not(single)) 3 else x
    okOp("kzg.whole", [n, b2i(single)], [[y], p, valuesOn(p, y, n)], [[commitment(p, s), opening(p, y, n, s)]])
  }
  action openings = {
    val t = place % 960
    say(openOp(3 * t, true, alpha, secret))
  }
  action cosetOpenings = say(openOp(place % 2880, false, alpha, secret))
  /// --- C18: commitments, proofs, points and values among five; the commitment may be the one that fits (6 x 5 x 8 x 5)
  pure def five(al: List[int], s: int): List[int] = al.concat([s, fadd(s, 1)])
  action verdicts = {
    val t = place % 1200
    val l = five(alpha, secret)
    val proof = l[t % 5]
    val y = l[(t / 5) % 5]
    val x = spots(secret)[(t / 25) % 8]
    val c = t / 200
    val com = if (c == 5) fadd(y, fmul(proof, fsub(secret, x))) else l[c]
    say(okOp("kzg.checkx", [t % 5, t % 3], [[com, proof, x, y]], [[b2i(validSingle(com, proof, x, y, secret))]]))
  }
  /// --- C20: the same on cosets, with all vectors of 1 and 2 values (6 x 5 x 7 x 12) and those of 4 (6 x 5 x 7 x 81)
  pure def cosetVerdict(t: int, vs: List[int], al: List[int], s: int): Op = {
    val l = five(al, s)
    val n = vs.length()
    val proof = l[t % 5]
    val x = spots(s)[(t / 5) % 7]
    val c = t / 35
    val com = if (c == 5) fadd(interpolated(vs, x, s), fmul(proof, fsub(fpow(s, n), fpow(x, n)))) else l[c]
    okOp("kzg.checkmx", [t % 5, t % 3, n], [[com, proof, x], vs], [[b2i(validMulti(com, proof, x, vs, s))]])
  }
  action cosetVerdicts = {
    val t = place % 2520
    val w = doubled(t % 12)
    say(cosetVerdict(t / 12, letters(w._2, 2^w._1, alpha), alpha, secret))
  }
  action cosetVerdicts4 = {
    val t = place % 17010
    say(cosetVerdict(t / 81, letters(t % 81, 4, alpha), alpha, secret))
  }
  /// --- C24, C25: polynomials of 1, 2 and 4 coefficients, all chunk lengths and both orders (93 x 2 and 93 x 3 x 2); those of 8 (6561 x 2 and 6561 x 4 x 2)
  pure def proofsOp(v: List[int], l: int, o: int, s: int): Op = {
    val n = 2 * v.length()
    val m = max(1, l)
    val ps = powers(root(log2(n)), n / m).foldl(List(), (acc, x) => acc.append(opening(v, x, m, s)))
    val k = log2(ps.length())
    okOp("fk.once", [n, l, o], [v], [if (o == 1) ps else range(0, ps.length()).foldl(List(), (acc, t) => acc.append(ps[bitrev(t, k)]))])
  }
  action proofs = {
    val t = place % 186
    val w = doubled(t / 2)
    say(proofsOp(letters(w._2, 2^w._1, alpha), 0, t % 2, secret))
  }
  action chunkProofs = {
    val t = place % 558
    val w = doubled(t / 6)
    val l = 2^((t / 2) % 3)
    val v = letters(w._2, 2^w._1, alpha)
    if (l > v.length()) say(NoOp) else say(proofsOp(v, l, t % 2, secret))
  }
  action proofs8 = say(proofsOp(letters((place / 2) % 6561, 8, alpha), 0, place % 2, secret))
  action chunkProofs8 = say(proofsOp(letters((place / 8) % 6561, 8, alpha), 2^((place / 2) % 4), place % 2, secret))

  /// --- C28: lengths 0 .. 20 in settings of scale 0 .. 4 (105), for each of the functions
  action lengths = {
    val t = place % 735
    val k = (t / 7) % 5
    val n = t / 35
    val f = t % 7
    val v = prand(secret + place, n)
    val fits = isPow2(n) and n <= 2^k
    if (f <= 1) say(if (fits) okOp("fft.each", [k], [v], [dftFwd(v), dftInv(v)]) else errOp("fft.bad", [k, f], [v]))
    else if (f <= 3) say(if (fits) okOp("fft.g1new", [k, f - 2], [v], [if (f == 2) dftFwd(v) else dftInv(v)]) else errOp("fft.g1bad", [k, f - 2], [v]))
    else if (f == 4) say(if (isPow2(n) and 2 * n <= 2^k) okOp("das.new", [k], [v], [oddValues(v)]) else errOp("das.bad", [k], [v]))
    else if (f == 5) {
      if (n == 0 or (fits and n == 1)) say(errOp("zero.poly", [k, n], [[0]]))
      else if (not(fits)) say(errOp("zero.poly", [k, n], [[n / 2]]))
      else { val z = vanish([n / 2], root(log2(n)))
             say(okOp("zero.poly", [k, n], [[n / 2]], [values(z, n, root(log2(n))), padTo(z, n)])) }
    }
    else if (not(fits) or n == 1) say(refOp("rec.bad", [k, n], [if (n == 0) [] else [0]]))
    else { val r = filled(v, [n / 2], n, root(log2(n)))
           say(okOp("rec.new", [k], [r, [n / 2]], [r])) }
  }
  /// amortising settings of all sizes 0 .. 33 and chunk lengths 0 .. 33 (34 x 34)
  action settings = {
    val t = place % 1156
    val n = t / 34
    val l = t % 34
    val bad = not(isPow2(n)) or n < 2 or n > 2^SCALE or (l > 0 and (not(isPow2(l)) or l > n / 2))
    if (bad) say(errOp("fk.new", [n, l], []))
    else say(okOp("fk.new", [n, l], [], []))
  }
  /// commitments to up to 20 coefficients, openings on cosets of 0 .. 20 points, verifications with counts 0 .. 20 (21 x 3)
  action counts = {
    val t = place % 63
    val n = t / 3
    val v = prand(secret + place, n)
    val x = spots(secret)[1 + place % 6]
    if (t % 3 == 0) {
      if (n > POINTS) say(refOp("kzg.commit", [0], [v]))
      else all { place' = place + stride, stride' = stride, alpha' = alpha, secret' = secret, g1regs' = [commitment(v, secret)], op' = okOp("kzg.commit", [0], [v], []) }
    } else if (t % 3 == 1) {
      val p = prand(secret, POINTS)
      say(if (isPow2(n)) okOp("kzg.provenew", [n], [[x], p], [[opening(p, x, n, secret)]]) else errOp("kzg.provenew", [n], [[x], p]))
    } else if (not(isPow2(n))) say(errOp("kzg.checkmx", [0, 0, n], [[x, 1, x], v]))
    else {
      val com = fadd(place % 2, fadd(interpolated(v, x, secret), fmul(x, fsub(fpow(secret, n), fpow(x, n)))))
      say(okOp("kzg.checkmx", [0, 0, n], [[com, x, x], v], [[b2i(validMulti(com, x, x, v, secret))]]))
    }
  }
  action step = {
    nondet kind = 0.to(1).oneOf()
    if (kind == 0) evals else products
  }

  val inField = g1regs.foldl(true, (acc, x) => acc and x >= 0 and x < ORD)
}
