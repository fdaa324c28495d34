/// Sizes at which whole vectors are too long for a specification to compute: what is specified are single values
/// (properties C08, C09, C11 - C25).
///
/// The data are described by a formula, few terms plus a geometric progression, which the driver writes out and the
/// specification can evaluate anywhere.  A result is compared at the places the specification chooses.
module largeMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import dft.* from "./fft"
  import kzgalg.* from "./kzg"

  var calls: int
  var secret: int
  var op: Op
  action init = {
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    all { calls' = 0, secret' = element(c, p), op' = NoOp }
  }
  action say(o: Op): bool = all { calls' = calls + 1, secret' = secret, op' = o }

  /// v0 X^e0 + v1 X^e1 + ... + a (1 + g X + ... + (g X)^(m-1))
  type Formula = { vs: List[int], es: List[int], a: int, g: int, m: int }
  /// fewer than n coefficients; w is a root of unity
  pure def formula(c: int, p: int, n: int, w: int): Formula = {
    val es = [p % n, (p / n) % n, n - 1]
    val vs = [element(c % 4, p), 1 + p % 97, element((p / 7) % 4, p / 11)]
    if (c <= 1) { vs: vs, es: es, a: 1 + p % (ORD - 1), g: p / 3, m: n }
    else if (c == 2) { vs: vs, es: es, a: 0, g: 0, m: n }
    else if (c == 3) { vs: vs, es: es, a: ORD - 1, g: fpow(w, p % n), m: n }
    else if (c == 4) { vs: [0], es: [0], a: p / 5, g: element(p % 4, p / 13), m: 1 + (p / 17) % n }
    // constant, and all coefficients equal
    else if (c == 5) { vs: [p], es: [0], a: 0, g: 0, m: 0 }
    else { vs: [0], es: [0], a: p, g: 1, m: n }
  }
  pure val FORMULAS = 7
  pure def args(f: Formula): List[List[int]] = [f.vs, f.es, [f.a, f.g, f.m]]
  pure def progression(a: int, g: int, m: int, x: int): int = {
    val y = fmul(g, x)
    if (y == 1) fmul(a, m % ORD) else fmul(a, fdiv(fsub(fpow(y, m), 1), fsub(y, 1)))
  }
  pure def valueAt(f: Formula, x: int): int =
    fadd(progression(f.a, f.g, f.m, x), range(0, f.vs.length()).foldl(0, (s, t) => s + f.vs[t] * fpow(x, f.es[t])) % ORD)
  pure def coefficient(f: Formula, i: int): int =
    fadd(if (i < f.m) fmul(f.a, fpow(f.g, i)) else 0, range(0, f.vs.length()).foldl(0, (s, t) => if (f.es[t] == i) s + f.vs[t] else s) % ORD)
  pure def coefficients(f: Formula, n: int): List[int] = {
    val geo = scaleBy(powers(f.g, min(f.m, n)), f.a).concat(rep(n - min(f.m, n), 0))
    range(0, f.vs.length()).foldl(geo, (acc, t) => acc.replaceAt(f.es[t], fadd(acc[f.es[t]], f.vs[t])))
  }
  /// the ends, the middle and some places between, of n
  pure def places(p: int, n: int): List[int] =
    [0, 1 % n, n / 2, n - 1].concat(range(0, 6).foldl(List(), (acc, i) => acc.append((p / (i * i + 1)) % n)))

  /// transforms of scalars
  action transformOf(lo: int, hi: int): bool = {
    nondet k = lo.to(hi).oneOf()
    nondet d = 0.to(1).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^k
    val w = if (b == 0) root(k) else finv(root(k))
    val f = formula(c, p, n, w)
    val at1 = places(p, n)
    val out = at1.foldl(List(), (acc, i) => acc.append(fmul(valueAt(f, fpow(w, i)), if (b == 0) 1 else finv(n))))
    say(okOp("large.fft", [k + d, b, k], args(f).append(at1), [out]))
  }
  action transforms = transformOf(12, 15)
  action transformsHuge = transformOf(16, 18)
  /// transforms of group elements
  action groupTransforms = {
    nondet k = 6.to(9).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^k
    val w = if (b == 0) root(k) else finv(root(k))
    val f = formula(c, p, n, w)
    val at1 = places(p, n)
    val out = at1.foldl(List(), (acc, i) => acc.append(fmul(valueAt(f, fpow(w, i)), if (b == 0) 1 else finv(n))))
    say(okOp("large.g1fft", [k + d, b, k], args(f).append(at1), [out]))
  }
  /// extension: the data are the values at the even places, some of which are specified as well
  action extensionOf(lo: int, hi: int): bool = {
    nondet k = lo.to(hi).oneOf()
    nondet d = 1.to(3).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^k
    val w = root(k + 1)
    val f = formula(c, p, n, w)
    val at1 = places(p, n)
    say(okOp("large.das", [k + d, k], args(f).append(at1), [
      at1.foldl(List(), (acc, i) => acc.append(valueAt(f, fpow(w, 2 * i)))),
      at1.foldl(List(), (acc, i) => acc.append(valueAt(f, fpow(w, 2 * i + 1))))]))
  }
  action extensions = extensionOf(10, 13)
  action extensionsHuge = extensionOf(14, 16)
  /// short data in settings that are very much wider
  action farOf(group: bool): bool = {
    nondet k = 0.to(9).oneOf()
    nondet t = 0.to(FAR.length() - 1).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val h = if (group) k % 5 else k
    val n = 2^h
    val w = if (b == 0) root(h) else finv(root(h))
    val f = formula(c, p, n, w)
    val at1 = places(p, n)
    val out = at1.foldl(List(), (acc, i) => acc.append(fmul(valueAt(f, fpow(w, i)), if (b == 0) 1 else finv(n))))
    say(okOp(if (group) "large.g1fft" else "large.fft", [FAR[t], b, h], args(f).append(at1), [out]))
  }
  action transformsFar = farOf(false)
  action groupTransformsFar = farOf(true)
  pure val FAR = [13, 15, 16, 17, 18, 19]
  action extensionsFar = {
    nondet k = 0.to(8).oneOf()
    nondet t = 0.to(FAR.length() - 1).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val w = root(k + 1)
    val f = formula(c, p, 2^k, w)
    val at1 = places(p, 2^k)
    say(okOp("large.das", [FAR[t], k], args(f).append(at1), [
      at1.foldl(List(), (acc, i) => acc.append(valueAt(f, fpow(w, 2 * i)))),
      at1.foldl(List(), (acc, i) => acc.append(valueAt(f, fpow(w, 2 * i + 1))))]))
  }
  /// the helpers on long polynomials: powers of 5 times the coefficients in four ways, without leading zeros, backwards,
  /// filled or cut off in three ways, the quotient by X - z, the product
  action helpers = {
    nondet how = 0.to(13).oneOf()
    nondet n = 101.to(6000).oneOf()
    nondet m = 1.to(7000).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet b = 0.to(FORMULAS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val f = led(formula(c, p, n, root(7)), n)
    val xs = [0, 1, ORD - 1, p / 3]
    val z = element(p % 4, p / 4)
    val five = if (how % 2 == 0) finv(5) else 5
    val at1 = places(p, if (how >= 6 and how <= 8) m else n)
    val name = "help.long"
    if (how <= 3)
      say(okOp(name, [how, n, m], args(f).concat([at1, xs]), [
        at1.foldl(List(), (acc, i) => acc.append(fmul(coefficient(f, i), fpow(five, if (how <= 1) i else i + 1)))),
        xs.foldl(List(), (acc, x) => acc.append(fmul(if (how <= 1) 1 else five, valueAt(f, fmul(five, x))))), [n]]))
    else if (how == 4)
      // m zeros follow
      say(okOp(name, [how, n, m], args(f).concat([at1, xs]), [
        at1.foldl(List(), (acc, i) => acc.append(coefficient(f, i))), xs.foldl(List(), (acc, x) => acc.append(valueAt(f, x))), [n]]))
    else if (how == 5)
      say(okOp(name, [how, n, m], args(f).concat([at1, xs]), [
        at1.foldl(List(), (acc, i) => acc.append(coefficient(f, n - 1 - i))),
        xs.foldl(List(), (acc, x) => acc.append(if (x == 0) coefficient(f, n - 1) else fmul(fpow(x, n - 1), valueAt(f, finv(x))))), [n]]))
    else if (how == 8 and m < n)
      say(errOp(name, [how, n, m], args(f).concat([at1, xs])))
    else if (how <= 8)
      say(okOp(name, [how, n, m], args(f).concat([at1, []]), [
        at1.foldl(List(), (acc, i) => acc.append(if (i < n) coefficient(f, i) else 0)), [], [m]]))
    else if (how == 9) {
      // z is none of the places
      val ys = [fadd(z, 1), fsub(z, 1), fmul(2, fadd(z, 1 + p / 5))].select(y => y != z)
      val fz = valueAt(f, z)
      say(okOp(name, [how, n, m], args(f).concat([[n - 2], ys, [z]]), [
        [coefficient(f, n - 1)],
        ys.foldl(List(), (acc, y) => acc.append(fdiv(fsub(valueAt(f, y), fz), fsub(y, z)))), [n - 1]]))
    } else {
      val l = 1 + (m % 3000)
      val h = formula(b, p / 19, l, root(6))
      say(okOp(name, [10, n, l], args(f).concat([[0, n + l - 2], xs]).concat(args(h)), [
        [fmul(coefficient(f, 0), coefficient(h, 0)), fmul(coefficient(f, n - 1), coefficient(h, l - 1))],
        xs.foldl(List(), (acc, x) => acc.append(fmul(valueAt(f, x), valueAt(h, x)))), [n + l - 1]]))
    }
  }
  /// products, compared by their values
  action products = {
    nondet i = 10.to(4000).oneOf()
    nondet j = 10.to(4000).oneOf()
    nondet e = 0.to(5).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet b = 0.to(FORMULAS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet how = 0.to(1).oneOf()
    val la = if (e == 0) 2^(6 + i % 7) + 1 else if (e == 1) 2^(6 + i % 7) else i
    val lb = if (e == 0) la else if (e <= 2) 2^(6 + j % 7) + (j / 8) % 2 else j
    val f = formula(c, p, la, root(5))
    val g = formula(b, p / 19, lb, root(6))
    val xs = [1, ORD - 1, 2, p, fpow(root(13), p % 8192)]
    say(okOp("large.mul", [how, la, lb], args(f).concat(args(g)).append(xs),
      [xs.foldl(List(), (acc, x) => acc.append(fmul(valueAt(f, x), valueAt(g, x))))]))
  }
  /// quotients: of q b + r by b, where r is shorter than b
  pure def led(f: Formula, n: int): Formula = if (coefficient(f, n - 1) == 0) f.with("vs", f.vs.append(1)).with("es", f.es.append(n - 1)) else f
  action quotients = {
    nondet i = 2.to(3000).oneOf()
    nondet j = 2.to(3000).oneOf()
    nondet e = 0.to(7).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet b = 0.to(FORMULAS - 1).oneOf()
    nondet r = 0.to(FORMULAS).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val lq = if (e == 0) 2^(1 + i % 11) else if (e == 1) 2^(1 + i % 11) + 1 else if (e == 2) 2 + i % 30 else i
    val lb = if (e <= 1) 2^(1 + j % 11) + j % 2 else if (e == 3) 126 + j % 5 else if (e == 4) 2 + j % 30 else j
    val q = led(formula(c, p, lq, root(6)), lq)
    val d = led(formula(b, p / 19, lb, root(7)), lb)
    val rest = if (r == FORMULAS) { vs: [0], es: [0], a: 0, g: 0, m: 0 } else formula(r, p / 23, lb - 1, root(5))
    val xs = [1, ORD - 1, p]
    val at1 = places(p, lq)
    // what the driver puts together is tied to the specification by its values
    say(okOp("large.div", [lq, lb], args(q).concat(args(d)).concat(args(rest)).concat([xs, at1]),
      [xs.foldl(List(), (acc, x) => acc.append(fadd(fmul(valueAt(q, x), valueAt(d, x)), valueAt(rest, x)))),
       at1.foldl(List(), (acc, t) => acc.append(coefficient(q, t)))]))
  }
  /// inverse series: of a geometric progression, of a binomial, of a power of a binomial
  action inverses = {
    nondet i = 2.to(6000).oneOf()
    nondet j = 0.to(3000).oneOf()
    nondet e = 0.to(7).oneOf()
    nondet c = 0.to(4).oneOf()
    nondet z = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = if (e <= 1) 2^(1 + i % 12) else if (e == 2) 2^(1 + i % 12) + 1 else i
    val a = 1 + p % (ORD - 1)
    val g = element(z, p / 3)
    val b = finv(a)
    val few = { vs: [b, fneg(fmul(b, g))], es: [0, 1], a: 0, g: 0, m: 0 }
    val at1 = places(p, n)
    if (c <= 1) {
      // at least as many terms as are asked for
      val l = if (j % 3 == 0) n else n + j
      say(okOp("large.inv", [l, n, 1], args({ vs: [0], es: [0], a: a, g: g, m: l }).concat(args(few)).append(at1), [at1.foldl(List(), (acc, t) => acc.append(coefficient(few, t)))]))
    } else {
      // a (1 - g X^d) : the coefficients at multiples of d are powers of g
      val d = if (c == 2) 1 else if (c == 3) 1 + j % 70 else 1 + j
      val l = d + 1 + (if (j % 2 == 0) 0 else j)
      val f = { vs: [a, fneg(fmul(a, g))], es: [0, d], a: 0, g: 0, m: 0 }
      say(okOp("large.inv", [l, n, d], args(f).concat(args({ vs: [0], es: [0], a: b, g: g, m: 1 + (n - 1) / d })).append(at1),
        [at1.foldl(List(), (acc, t) => acc.append(if (t % d == 0) fmul(b, fpow(g, t / d)) else 0))]))
    }
  }
  /// values of long polynomials
  action evaluations = {
    nondet n = 300.to(70000).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val f = formula(c, p, n, root(7))
    val xs = [0, 1, ORD - 1, 2, p, root(16), SPECIALS[p % SPECIALS.length()]]
    say(okOp("large.eval", [n], args(f).append(xs), [xs.foldl(List(), (acc, x) => acc.append(valueAt(f, x)))]))
  }
  /// a set of positions in a domain of n: disjoint residue classes r + d Z, each given as (r, d); the product of
  /// X - w^i over the class is X^(n/d) - w^(r n/d)
  pure def classes(c: int, p: int, k: int): List[(int, int)] = {
    val r = p % 8
    if (c == 0) [(p % 2, 2)]
    else if (c == 1) [(r % 4, 4)]
    else if (c == 2) [(r % 4, 4), ((r + 1) % 4 + 4 * (p / 8 % 2), 8)]
    else if (c == 3) [(r, 8), ((r + 3) % 8 + 8 * (p / 8 % 4), 32), ((r + 6) % 8 + 8 * (p / 32 % 16), 128)]
    else if (c == 4) [(p % 16, 16), ((p + 1) % 16, 16), ((p + 7) % 16 + 16 * (p / 16 % 8), 128)]
    else if (c == 5) [(r % 4, 4), ((r + 2) % 4 + 4 * (p / 8 % 4), 16), ((r + 1) % 4 + 4 * (p / 32 % 2^(k - 2)), 2^k)]
    else [(p % 2^(k - 1), 2^(k - 1)), ((p + 1) % 2^(k - 1) + 2^(k - 1) * (p / 2^k % 2), 2^k)]
  }
  pure val SETS = 7
  pure def population(s: List[(int, int)], n: int): int = s.foldl(0, (t, x) => t + n / x._2)
  pure def vanishing(s: List[(int, int)], n: int, w: int, x: int): int =
    s.foldl(1, (t, y) => fmul(t, fsub(fpow(x, n / y._2), fpow(w, (y._1 * (n / y._2)) % n))))
  pure def flat(s: List[(int, int)]): List[int] = s.foldl(List(), (acc, x) => acc.append(x._1).append(x._2))

  action zeroOf(lo: int, hi: int, far: bool): bool = {
    nondet k = lo.to(hi).oneOf()
    nondet e = 0.to(1).oneOf()
    nondet t = 0.to(FAR.length() - 1).oneOf()
    nondet c = 0.to(SETS - 1).oneOf()
    nondet order = 0.to(2).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val d = if (far) FAR[t] - k else e
    val n = 2^k
    val w = root(k)
    val s = classes(c, p, k)
    val at1 = places(p / 3, n)
    val xs = [0, 1, p]
    say(okOp("large.zero", [k + d, k, order], [flat(s), at1, xs], [
      at1.foldl(List(), (acc, i) => acc.append(vanishing(s, n, w, fpow(w, i)))),
      xs.foldl(List(), (acc, x) => acc.append(vanishing(s, n, w, x)))]))
  }
  action zeros = zeroOf(8, 12, false)
  action zerosHuge = zeroOf(13, 15, false)
  action zerosFar = zeroOf(7, 9, true)
  action recoveryOf(lo: int, hi: int, far: bool): bool = {
    nondet k = lo.to(hi).oneOf()
    nondet e = 0.to(1).oneOf()
    nondet z = 0.to(FAR.length() - 1).oneOf()
    nondet c = 0.to(SETS - 1).oneOf()
    nondet b = 0.to(FORMULAS - 1).oneOf()
    nondet t = 0.to(2).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val d = if (far) FAR[z] - k else e
    val n = 2^k
    val w = root(k)
    val s = classes(c, p, k)
    // as many coefficients as samples remain, or half as many as there are positions
    val m = if (t == 0) n - population(s, n) else n / 2
    val f = formula(b, p / 5, min(m, n - population(s, n)), w)
    val at1 = places(p / 3, n)
    say(okOp("large.recover", [k + d, k], args(f).concat([flat(s), at1]), [at1.foldl(List(), (acc, i) => acc.append(valueAt(f, fpow(w, i))))]))
  }
  action recoveries = recoveryOf(8, 12, false)
  action recoveriesHuge = recoveryOf(13, 14, false)
  action recoveriesFar = recoveryOf(7, 9, true)
  /// setups
  action setupOf(lo: int, hi: int): bool = {
    nondet n = lo.to(hi).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val s = element(c, p)
    val at1 = places(p, n)
    say(okOp("large.setup", [n], [[s], at1], [at1.foldl(List(), (acc, i) => acc.append(fpow(s, i)))]))
  }
  action setups = setupOf(60, 700)
  action setupsHuge = setupOf(4097, 5200)
  /// combinations of many points, whose logarithms are an arithmetic progression
  action combinations = {
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet e = 0.to(19).oneOf()
    nondet i = 0.to(1000).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = if (e <= 2) 4000 + 5 * i else if (e <= 8) 1000 + 3 * i else 81 + i
    val f = formula(c, p, n, root(9))
    val cs = coefficients(f, n)
    val st = if (p % 4 == 0) 0 else p / 2
    val v = range(0, n).foldl(0, (s, j) => s + cs[j] * (p + j * st)) % ORD
    say(okOp("large.commit", [n], args(f).append([p, st]), [[v]]))
  }
  /// amortised proofs
  action proofsOf(lo: int, hi: int, chunks: int, far: bool): bool = {
    nondet k = lo.to(hi).oneOf()
    nondet t = 0.to(FAR.length() - 1).oneOf()
    nondet e = 0.to(9).oneOf()
    nondet o = 0.to(1).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet s = 2.to(ORD - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^k
    val l = if (chunks == 0) 0 else 2^(e % k)
    val step1 = max(1, l)
    val f = formula(c, p, n / 2, root(k))
    val cs = coefficients(f, n / 2)
    val m = log2(n / step1)
    val at1 = places(p, n / step1)
    say(okOp("large.fk", [k, l, o, if (far) FAR[t] else k], args(f).concat([[s], at1]),
      [at1.foldl(List(), (acc, i) => acc.append(opening(cs, fpow(root(k), if (o == 1) i else bitrev(i, m)), step1, s)))]))
  }
  action proofs1 = proofsOf(8, 10, 0, false)
  action proofsN = proofsOf(9, 10, 1, false)
  action proofsFar1 = proofsOf(2, 6, 0, true)
  action proofsFarN = proofsOf(2, 6, 1, true)

  /// openings of long polynomials, at a point or on a coset, and verdicts on claims that differ in one place
  /// scale of the settings, points, and logarithm of the greatest coset
  pure val SETUPS = [(6, 70, 6), (8, 300, 8), (9, 600, 9), (10, 1100, 10), (11, 2100, 11), (13, 300, 8), (17, 40, 5), (19, 12, 3)]
  /// the remainder of the formula modulo X^n - b, at y
  pure def remainder(f: Formula, n: int, b: int, y: int): int = {
    val gn = fpow(f.g, n)
    val whole = fmul(progression(f.a, f.g, n, y), progression(1, gn, f.m / n, b))
    val part = fmul(fpow(fmul(gn, b), f.m / n), progression(f.a, f.g, f.m % n, y))
    fadd(fadd(whole, part), range(0, f.vs.length()).foldl(0, (s, t) => s + f.vs[t] * fmul(fpow(y, f.es[t] % n), fpow(b, f.es[t] / n))) % ORD)
  }
  /// the polynomial of fewer than n coefficients that is one at x w^j and zero on the rest of the coset of x, at y
  pure def indicator(x: int, n: int, j: int, y: int): int = {
    val z = fmul(x, fpow(root(log2(n)), j))
    if (y == z) 1 else fdiv(fmul(fsub(fpow(y, n), fpow(x, n)), z), fmul(fmul(n, fpow(x, n)), fsub(y, z)))
  }
  pure def claim(f: Formula, n: int, x: int, xc: int, com: int, proof: int, j: int, d: int, s: int): bool = {
    // the values on the coset of x, claimed on that of xc, are those of the remainder in a scaled variable
    val rem = if (n == 1) valueAt(f, x) else remainder(f, n, fpow(x, n), fdiv(fmul(s, x), xc))
    fsub(com, fadd(rem, fmul(d, if (n == 1) 1 else indicator(xc, n, j, s)))) == fmul(proof, fsub(fpow(s, n), fpow(xc, n)))
  }
  action openingOf(single: bool): bool = {
    nondet i = 0.to(SETUPS.length() - 1).oneOf()
    nondet e = 0.to(9).oneOf()
    nondet l = 0.to(9).oneOf()
    nondet c = 0.to(FORMULAS - 1).oneOf()
    nondet xc = 0.to(6).oneOf()
    nondet how = 0.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet q = 1.to(ORD - 1).oneOf()
    val k = SETUPS[i]._3
    val npts = SETUPS[i]._2
    val m = if (single) 0 else max(1, if (e <= 1) k else if (e <= 3) k - 1 else (p / 7) % (k + 1))
    val n = 2^m
    val len = if (l <= 2) npts else if (l == 3) npts - 1 else if (l == 4) 2^k else if (l <= 6) max(2, min(npts, n + 1 + p % 3)) else 2 + p % (npts - 1)
    val w = root(k)
    val f = formula(c, p, len, w)
    val x0 = if (xc == 0) 0 else if (xc == 1) 1 else if (xc == 2) secret else if (xc == 3) fmul(secret, fpow(w, q % 2^k))
             else if (xc == 4) fpow(w, q % 2^k) else q
    val x = if (single) x0 else max(1, x0)
    val com = valueAt(f, secret)
    val proof = opening(coefficients(f, len), x, n, secret)
    // the claim: as it is; another value, proof, commitment, point; another value and the proof that goes with it
    val j = (q / 5) % n
    val d = if (how == 1 or how == 5) element(q % 4, q / 4) else 0
    val dp = if (how == 2) element(q % 4, q / 4) else 0
    val dc = if (how == 3) element(q % 4, q / 4)
             // the proof is kept and the commitment moved along with the value
             else if (how == 5) fmul(d, if (n == 1) 1 else indicator(x, n, j, secret)) else 0
    val x2 = if (how == 4) (if (q % 3 == 0 and x != 0) fneg(x) else if (q % 3 == 1 and n > 1) fmul(x, fpow(root(m), j)) else 1 + q / 7) else x
    val at1 = places(q, n)
    val z = root(m)
    val ok = claim(f, n, x, x2, fadd(com, dc), fadd(proof, dp), j, d, secret)
    say(okOp("large.open", [SETUPS[i]._1, npts, m, len, b2i(single), j], args(f).concat([[secret, x, x2, d, dp, dc], at1]),
      [[com, proof, b2i(ok)], at1.foldl(List(), (acc, t) => acc.append(valueAt(f, fmul(x, fpow(z, t)))))]))
  }
  action openings1 = openingOf(true)
  action openingsN = openingOf(false)

  /// the formula is what its coefficients say
  val agrees =
    if (op.name == "large.open") {
      // the closed form of the remainder against the quotient
      val f: Formula = { vs: op.a[0], es: op.a[1], a: op.a[2][0], g: op.a[2][1], m: op.a[2][2] }
      val n = 2^(op.n[2])
      claim(f, n, op.a[3][1], op.a[3][1], op.r[0][0], op.r[0][1], 0, 0, secret)
        and (op.a[3][2] != op.a[3][1] or op.a[3][3] != 0 or op.a[3][4] != 0 or op.a[3][5] != 0 or op.r[0][2] == 1)
    } else if (op.name == "large.commit" or op.name == "large.fk") {
      val n = if (op.name == "large.commit") op.n[0] else 2^(op.n[0] - 1)
      val f: Formula = { vs: op.a[0], es: op.a[1], a: op.a[2][0], g: op.a[2][1], m: op.a[2][2] }
      peval(coefficients(f, n), 3) == valueAt(f, 3)
    } else true
}
