/// Many calls on shared objects (properties C26, C28 and C29).

/// C26: whatever was called before, a call's result is the function `callOp` of its arguments.
///
/// A session has one set of settings and four polynomials.  The history is the list of calls made so far, each
/// given by its kind and the number its parameters are derived from.  A call can be repeated at any later time:
/// on the same objects, on copies, on objects built anew, in another thread, or after the originals are gone.
module sessionMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"
  import positions.* from "./erasure"
  import kzgalg.* from "./kzg"

  var secret: int
  var scale: int
  var chunk: int
  /// 0 and 1 have half as many coefficients as the domain has points, and some leading coefficients may be 0; 2 and 3 are
  /// shorter, with a leading coefficient that is not 0
  var polys: List[List[int]]
  /// kind, parameter and the change made to the point of each call
  var history: List[(int, int, int)]
  var op: Op

  action init = {
    nondet k = 2.to(6).oneOf()
    startAt(k, [])
  }
  action startAt(k: int, h: List[(int, int, int)]): bool = {
    nondet e = 0.to(4).oneOf()
    nondet s = 2.to(ORD - 1).oneOf()
    nondet c = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^(k - 1)
    val l = 2^(e % k)
    val v = shape(c, p, n)
    val u = v.replaceAt(0, max(1, v[0]))
    // leading coefficients that are zero
    val t = if (n < 4) 0 else max(0, (p / 16) % (n / 2 + 2) - 2)
    val a = prand(s, n - t).concat(rep(t, 0))
    val b = if (p % 2 == 0) u.replaceAt(n - 1, max(1, u[n - 1])) else u.replaceAt(n / 2, max(1, u[n / 2]))
    val ps = [a, b, prand(p, 1 + n / 2), [p % 7, 1 + s % 5]]
    all {
      secret' = s, scale' = k, chunk' = l, polys' = ps, history' = h,
      op' = okOp("flow.start", [k, n + 1, l], [[s]].concat(ps), []),
    }
  }
  action keep(o: Op): bool = all { secret' = secret, scale' = scale, chunk' = chunk, polys' = polys, history' = history, op' = o }

  pure val KINDS = 23
  /// a point that has most of its words in common with x, or the opposite point, also as seen from the secret o / 2
  pure def nearby(x: int, d: int, o: int): int = {
    val y = if (d == 0) x else if (d == 1) fadd(x, 1) else if (d == 2) fadd(x, 2^64) else if (d == 3) fadd(x, 2^192) else if (d == 4) fsub(x, 1) else if (d == 5) fneg(x) else if (d == 6) fmul(x, 2) else fsub(o, x)
    max(1, y)
  }
  /// call number `kind` with parameters from p: n = [kind, ...]
  def callOp(kind: int, p: int, d: int): Op = {
    val n = 2^scale
    val half = n / 2
    val i = p % 4
    val j = (p / 4) % 4
    val big = (p / 16) % 2
    val x = nearby(max(1, element((p / 32) % 4, p / 128)), d, fadd(secret, secret))
    val name = "flow.call"
    if (kind == 0) okOp(name, [0, i], [[x]], [[peval(polys[i], x)]])
    else if (kind <= 2) { val len = 1 + (p / 128) % (polys[i].length() + polys[j].length())
                          okOp(name, [kind, i, j, len], [], [pmulTrunc(polys[i], polys[j], len)]) }
    else if (kind <= 5) okOp(name, [kind, big, 2 + i % 2], [], [pdivmod(if (kind == 3) norm(polys[big]) else polys[big], polys[2 + i % 2])._1])
    else if (kind == 6) {
      val len = 1 + (p / 128) % (2 * half)
      val a = polys[big]
      if (a[0] == 0) errOp(name, [6, big, len], [])
      else {
        val f = finv(a[0])
        val inv = range(1, len).foldl([f], (acc, t) =>
          acc.append(fmul(fneg(f), span(max(0, t + 1 - a.length()), t).foldl(0, (s, u) => s + acc[u] * a[t - u]) % ORD)))
        okOp(name, [6, big, len], [], [inv])
      }
    }
    else if (kind == 7) okOp(name, [7, big], [], [dftFwd(polys[big])])
    else if (kind == 8) okOp(name, [8, big], [], [dftInv(polys[big])])
    else if (kind == 9) okOp(name, [9, big], [], [oddValues(polys[big])])
    else if (kind == 10) { val v = take(polys[big], min(half, 4))
                           okOp(name, [10], [v], [dftFwd(v)]) }
    else if (kind == 11) okOp(name, [11, i], [], [[commitment(polys[i], secret)]])
    else if (kind == 12) okOp(name, [12, i], [[x]], [[opening(polys[i], x, 1, secret)]])
    else if (kind == 13) okOp(name, [13, big, chunk], [[x]], [[opening(polys[big], x, chunk, secret)]])
    else if (kind == 14) {
      val y = fadd(peval(polys[i], x), j % 2)
      okOp(name, [14], [[commitment(polys[i], secret), opening(polys[i], x, 1, secret), x, y]], [[b2i(j % 2 == 0 or x == secret)]])
    }
    else if (kind == 15) {
      val vs = valuesOn(polys[big], x, chunk)
      val com = fadd(commitment(polys[big], secret), j % 2)
      val pr = opening(polys[big], x, chunk, secret)
      okOp(name, [15, chunk], [[com, pr, x], vs], [[b2i(validMulti(com, pr, x, vs, secret))]])
    }
    else if (kind <= 17) {
      // all proofs, in natural (p / 32 odd) or bit-reversed order; one per point or one per chunk
      val l = if (kind == 16) 1 else chunk
      val ps = powers(root(scale), n / l).foldl(List(), (acc, z) => acc.append(opening(polys[big], z, l, secret)))
      val k = log2(ps.length())
      val o = (p / 32) % 2
      okOp(name, [kind, big, o], [], [if (o == 1) ps else range(0, ps.length()).foldl(List(), (acc, t) => acc.append(ps[bitrev(t, k)]))])
    }
    else if (kind == 18) {
      val l = bits((p / 32) % (2^half), half).concat([n - 1])
      val z = vanish(l, root(scale))
      okOp(name, [18, n], [l], [values(z, n, root(scale)), padTo(z, n)])
    }
    else if (kind == 19) {
      // recover the values of polynomial `big` when some positions are lost
      val l = bits(1 + (p / 32) % (2^half - 1), half)
      okOp(name, [19], [dftFwd(padTo(polys[big], n)), l], [dftFwd(padTo(polys[big], n))])
    }
    else if (kind == 20) {
      // many points, few of them different
      val v = range(0, half + 1).foldl(List(), (acc, t) => acc.append(fmul(x, 1 + t % 3)))
      okOp(name, [20], [v, polys[big]], [[dot(v, polys[big])]])
    }
    else if (kind == 21) {
      // a pairing check: a b = c x in the exponents, or not
      val b = 1 + (p / 64) % 9
      val c = element((p / 32) % 4, p / 256)
      val a = fadd(fdiv(fmul(c, x), b), i / 3)
      okOp(name, [21], [[a, b, c, x]], [[b2i(fmul(a, b) == fmul(c, x))]])
    }
    else {
      // multiples in both groups
      val u = element(j, p / 512)
      okOp(name, [22], [[u, x]], [[fmul(u, x)], [fmul(u, x)]])
    }
  }
  action fresh = {
    nondet kind = 0.to(KINDS - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    all { secret' = secret, scale' = scale, chunk' = chunk, polys' = polys, history' = history.append((kind, p, 0)), op' = callOp(kind, p, 0) }
  }
  /// how: 0 same objects, 1 copies, 2 objects built anew, 3 other thread, 4 copies that replace the originals
  action again = {
    nondet t = 0.to(2^20).oneOf()
    nondet how = 0.to(4).oneOf()
    if (history.length() == 0) fresh
    else {
      val h = history[t % history.length()]
      val o = callOp(h._1, h._2, h._3)
      keep({ name: "flow.again", n: [how].concat(o.n), a: o.a, r: o.r, ok: o.ok })
    }
  }
  /// an earlier call once more, at a point that differs little
  action near = {
    nondet t = 0.to(2^20).oneOf()
    nondet d = 1.to(7).oneOf()
    if (history.length() == 0) fresh
    else {
      // the last call, or any
      val h = history[if (t % 2 == 0) history.length() - 1 else (t / 2) % history.length()]
      all { secret' = secret, scale' = scale, chunk' = chunk, polys' = polys, history' = history.append((h._1, h._2, d)), op' = callOp(h._1, h._2, d) }
    }
  }
  /// an earlier call once more, on a polynomial of which one coefficient was changed in between
  action edit = {
    nondet i = 0.to(3).oneOf()
    nondet t = 0.to(2^20).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val q = polys[i]
    // neither the constant nor the leading coefficient becomes zero
    val j = t % q.length()
    val v = if (t % 3 == 0) max(1, fadd(q[j], 1)) else max(1, p)
    all { secret' = secret, scale' = scale, chunk' = chunk, history' = history, polys' = polys.replaceAt(i, q.replaceAt(j, v)),
          op' = okOp("flow.edit", [i, j], [[v]], []) }
  }
  /// several calls at the same time, over and over: of one kind or of different kinds.  n = [calls, then for each of them
  /// the lengths of its n, a and r, then all n].  Recovery is left out (known finding K7).
  action storm = {
    nondet t = 0.to(2^20).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val kind = t % 23
    val cs = range(0, 6).foldl(List(), (acc, i) => {
      val k = if ((t / 23) % 3 == 0) (kind + i) % 23 else kind
      // the same parameters but for the last digits, which choose the polynomials
      val o = callOp(if (k == 19) 9 else k, (p / 32) * 32 + (p + i * 5) % 32, if (t % 2 == 0) 0 else i)
      if (o.ok == "ok") acc.append(o) else acc
    })
    val lens = cs.foldl(List(), (acc, o) => acc.concat([o.n.length(), o.a.length(), o.r.length()]))
    keep(okOp("flow.storm", [cs.length()].concat(lens).concat(cs.foldl(List(), (acc, o) => acc.concat(o.n))),
      cs.foldl(List(), (acc, o) => acc.concat(o.a)), cs.foldl(List(), (acc, o) => acc.concat(o.r))))
  }
  /// other objects of the same sizes, or of others, take the place of the old ones
  action restart = {
    nondet k = 2.to(6).oneOf()
    nondet same = 0.to(1).oneOf()
    if (same == 1) startAt(scale, history) else startAt(k, [])
  }
  /// refused calls
  action refused = {
    nondet c = 0.to(9).oneOf()
    nondet p = 0.to(1000).oneOf()
    keep(refOp("flow.refused", [c, 2^scale, p], []))
  }
  /// everything that exists is still what it was
  action audit = keep(okOp("flow.audit", [], [], [powers(root(scale), 2^scale + 1), powers(secret, 2^(scale - 1) + 1)]))
  action step = {
    nondet kind = 0.to(33).oneOf()
    if (kind >= 32) storm else if (kind <= 10) fresh else if (kind <= 18) again else if (kind <= 23) near else if (kind <= 26) edit else if (kind <= 28) refused
    else if (kind <= 30) audit else restart
  }
  action stepStorm = {
    nondet kind = 0.to(15).oneOf()
    if (kind == 0) restart else if (kind == 1) edit else storm
  }
  val inField = polys.foldl(true, (acc, q) => acc and q.foldl(true, (b, x) => b and x >= 0 and x < ORD))
}

/// C29: data are extended, committed to and cut into chunks with proofs; chunks are altered, mixed up or lost;
/// the rest is verified and the data are recovered from what verification accepts.
module flowMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"
  import positions.* from "./erasure"
  import kzgalg.* from "./kzg"

  var secret: int
  /// number of chunks and their length; half of all samples are data
  var count: int
  var chunk: int
  /// the samples as sent out, and as they are held now
  var sent: List[int]
  var regs: List[int]
  /// the commitment and the proofs as sent out, and as they are held now
  var signed: List[int]
  var g1regs: List[int]
  /// chunks that did not arrive
  var gone: Set[int]
  var op: Op

  action init = all {
    secret' = 5, count' = 2, chunk' = 1, sent' = [3, 3], regs' = [3, 3], signed' = [3, 0, 0], g1regs' = [3, 0, 0], gone' = Set(),
    op' = okOp("flow.begin", [1, 2, 1], [[5], [3]], []),
  }
  action keep(o: Op): bool = all {
    secret' = secret, count' = count, chunk' = chunk, sent' = sent, regs' = regs, signed' = signed, g1regs' = g1regs, gone' = gone, op' = o }
  action held(o: Op, v: List[int], g: List[int], l: Set[int]): bool = all {
    secret' = secret, count' = count, chunk' = chunk, sent' = sent, regs' = v, signed' = signed, g1regs' = g, gone' = l, op' = o }

  /// 2m samples of which the m at even positions are the data
  action beginWith(k: int, l: int, s: int, coeffs: List[int], code: List[int]): bool = {
    val n = 2^k
    val w = root(k)
    val data = range(0, n / 2).foldl(List(), (acc, i) => acc.append(code[2 * i]))
    val g = [commitment(coeffs, s)].concat(powers(w, n / l).foldl(List(), (acc, x) => acc.append(opening(coeffs, x, l, s))))
    all { secret' = s, count' = n / l, chunk' = l, sent' = code, regs' = code, signed' = g, g1regs' = g, gone' = Set(),
          op' = okOp("flow.begin", [k, n / 2 + 1, l], [[s], data], []) }
  }
  /// the secret is no root of unity of the domain, so that every verification says something
  pure def outside(s: int): int = if (fpow(s, 2^32) == 1 or s == 0) 5 else s
  action begin = {
    nondet k = 1.to(6).oneOf()
    nondet e = 0.to(5).oneOf()
    nondet c = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet s = 0.to(ORD - 1).oneOf()
    nondet t = 0.to(3).oneOf()
    // the data or their coefficients have a shape
    val v = shape(c, p, 2^(k - 1))
    val coeffs = if (p % 3 == 0) v else dftInv(v)
    beginWith(k, 2^(e % k), outside(element(t, s)), coeffs, dftFwd(padTo(coeffs, 2^k)))
  }
  action beginBig = {
    nondet k = 7.to(9).oneOf()
    nondet e = 2.to(5).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    nondet s = 0.to(ORD - 1).oneOf()
    val n = 2^k
    beginWith(k, 2^e, outside(s), geoCoeffs(p, s, n / 2, n / 2), geoValues(p, s, n / 2, 1, root(k), n))
  }
  def pointOf(i: int): int = fpow(root(log2(count * chunk)), i)
  def valuesOf(i: int): List[int] = range(0, chunk).foldl(List(), (acc, j) => acc.append(regs[i + j * count]))
  def good(i: int): bool = validMulti(g1regs[0], g1regs[i + 1], pointOf(i), valuesOf(i), secret)

  action check = {
    nondet t = 0.to(2^20).oneOf()
    val i = t % count
    keep(okOp("flow.check", [i], [], [[b2i(good(i))]]))
  }
  action checkAll = {
    if (count > 16) check
    else keep(okOp("flow.checkall", [], [], [range(0, count).foldl(List(), (acc, i) => acc.append(b2i(good(i))))]))
  }
  /// one sample is changed
  action alter = {
    nondet t = 0.to(2^20).oneOf()
    nondet c = 0.to(4).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val i = t % regs.length()
    val v = if (c == 0) fadd(regs[i], 1) else if (c == 1) fneg(regs[i]) else if (c == 2) 0 else if (c == 3) regs[(p % regs.length())] else p
    held(okOp("flow.alter", [i], [[v]], []), regs.replaceAt(i, v), g1regs, gone)
  }
  /// two samples of a chunk, two chunks or two proofs are exchanged
  action exchange = {
    nondet t = 0.to(2^20).oneOf()
    nondet u = 0.to(2^20).oneOf()
    nondet c = 0.to(2).oneOf()
    val i = t % count
    val j = u % count
    if (c == 0) {
      val a = i + ((t / count) % chunk) * count
      val b = i + ((u / count) % chunk) * count
      held(okOp("flow.swap", [0, a, b], [], []), regs.replaceAt(a, regs[b]).replaceAt(b, regs[a]), g1regs, gone)
    } else if (c == 1) {
      val v = range(0, chunk).foldl(regs, (acc, r) => acc.replaceAt(i + r * count, regs[j + r * count]).replaceAt(j + r * count, regs[i + r * count]))
      held(okOp("flow.swap", [1, i, j], [], []), v, g1regs, gone)
    } else held(okOp("flow.swap", [2, i, j], [], []), regs, g1regs.replaceAt(i + 1, g1regs[j + 1]).replaceAt(j + 1, g1regs[i + 1]), gone)
  }
  /// the commitment (0) or a proof is replaced
  action forge = {
    nondet t = 0.to(2^20).oneOf()
    nondet c = 0.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val i = if (c == 0) 0 else 1 + t % count
    val v = if (c == 1) 0 else if (c == 2) fneg(g1regs[i]) else if (c == 3) g1regs[0] else element(p % 4, p / 4)
    held(okOp("flow.forge", [i], [[v]], []), regs, g1regs.replaceAt(i, v), gone)
  }
  action lose = {
    nondet x = 0.to(2^256).oneOf()
    nondet c = 0.to(3).oneOf()
    val l = if (c == 0) bits(x, count) else if (c == 1) block(x % count, count / 2, count)
            else if (c == 2) range(0, count / 2).foldl(List(), (acc, i) => acc.append(2 * i + x % 2)) else [x % count]
    // at most half
    val s = l.foldl(Set(), (acc, i) => if (acc.size() < count / 2) acc.union(Set(i)) else acc)
    val m = range(0, count).foldl(List(), (acc, i) => if (s.contains(i)) acc.append(i) else acc)
    held(okOp("flow.lose", [], [m], []), regs, g1regs, s)
  }
  /// everything is sent again
  action resend = held(okOp("flow.resend", [], [sent, signed], []), sent, signed, Set())
  /// recover from the chunks which arrived and are accepted, if these are enough, commit and prove again
  action recover = {
    val acc = range(0, count).foldl(List(), (acc, i) => if (gone.contains(i)) acc else if (good(i)) acc.append(i) else acc)
    if (2 * acc.length() < count) resend
    else held(okOp("flow.recover", [], [], [acc, sent]), sent, signed, Set())
  }
  action step = {
    nondet kind = 0.to(15).oneOf()
    if (kind == 0) begin else if (kind <= 2) check else if (kind == 3) checkAll else if (kind <= 5) alter else if (kind == 6) exchange
    else if (kind == 7) forge else if (kind <= 10) lose else if (kind == 11) resend else recover
  }
  action stepBig = {
    nondet kind = 0.to(9).oneOf()
    if (count * chunk < 128) beginBig else if (kind <= 1) check else if (kind == 2) alter else if (kind == 3) exchange
    else if (kind <= 6) lose else recover
  }
  /// honest chunks are accepted; an accepted chunk holds the values that were sent, if its commitment is the one sent
  val honest = range(0, count).foldl(true, (acc, i) =>
    acc and if (g1regs[0] == signed[0] and g1regs[i + 1] == signed[i + 1])
              good(i) == range(0, chunk).foldl(true, (b, j) => b and regs[i + j * count] == sent[i + j * count])
            else true)
  /// what is recovered is what was sent
  val recovered = if (op.name == "flow.recover") regs == sent and g1regs == signed else true
  val cheap = if (op.name == "flow.check" or op.name == "flow.begin") honest else recovered
}

/// C28: every operation at its limits and just beyond.
module limitsMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"
  import positions.* from "./erasure"
  import kzgalg.* from "./kzg"

  /// a setup of npts points with settings of a domain of 2^scale points; these stay usable whatever is refused
  var secret: int
  var npts: int
  var scale: int
  var g1regs: List[int]
  var op: Op

  action init = {
    nondet k = 0.to(5).oneOf()
    nondet n = 2.to(20).oneOf()
    nondet s = 2.to(ORD - 1).oneOf()
    all { secret' = s, npts' = n, scale' = k, g1regs' = [0, 0, 0, 0],
          op' = okOp("kzg.start", [k, n, 4], [[s]], []) }
  }
  action keep(o: Op): bool = all { secret' = secret, npts' = npts, scale' = scale, g1regs' = g1regs, op' = o }

  /// the scales of settings
  action scales = {
    nondet c = 0.to(6).oneOf()
    nondet p = 0.to(2^30).oneOf()
    if (c <= 1) { val k = p % 12
                  keep(okOp("fs.new", [k], [range(0, 2^k + 1)], [[2^k], [root(k)], powers(root(k), 2^k + 1)])) }
    else if (c == 2) keep(okOp("fs.table", [p % 32], [], [[root(p % 32)]]))
    else keep(errOp("fs.new", [if (c == 3) 32 else if (c == 4) 33 else if (c == 5) 64 else 34 + p], []))
  }
  action expansions = {
    nondet k = 0.to(8).oneOf()
    nondet c = 0.to(2).oneOf()
    val w = root(k)
    if (c == 0) keep(okOp("fs.expand", [2^k], [[w]], [powers(w, 2^k + 1)]))
    else if (k == 0) keep(errOp("fs.expand", [64], [[3]]))
    else keep(errOp("fs.expand", [if (c == 1) 2^k - 1 else 2^(k - 1)], [[w]]))
  }
  /// lengths: 0 the width, 1 twice the width, 2 none, 3 one more, 4 one less, 5 one, 6 three quarters, 7 half
  pure def lengthOf(c: int, w: int): int =
    if (c == 0) w else if (c == 1) 2 * w else if (c == 2) 0 else if (c == 3) w + 1 else if (c == 4) w - 1
    else if (c == 5) 1 else if (c == 6) 3 * w / 4 else max(1, w / 2)
  action transforms = {
    nondet k = 0.to(7).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = lengthOf(c, 2^k)
    if (not(isPow2(n)) or n > 2^k) keep(errOp("fft.bad", [k, b], [prand(p, n)]))
    else {
      val es = [p % n, (p / n) % n]
      val vs = [p, ORD - 1]
      val w = root(log2(n))
      keep(okOp("fft.sparse", [k, b, n], [vs, es],
        [if (b == 0) sparseValues(vs, es, 1, w, n) else scaleBy(sparseValues(vs, es, 1, finv(w), n), finv(n))]))
    }
  }
  action groupTransforms = {
    nondet k = 0.to(4).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet b = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = lengthOf(c, 2^k)
    val v = prand(p, n)
    if (not(isPow2(n)) or n > 2^k) keep(errOp("fft.g1bad", [k, b], [v]))
    else keep(okOp("fft.g1new", [k, b], [v], [if (b == 0) dftFwd(v) else dftInv(v)]))
  }
  action extensions = {
    nondet k = 0.to(6).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = lengthOf(c, 2^k)
    val v = prand(p, n)
    if (not(isPow2(n)) or 2 * n > 2^k) keep(errOp("das.bad", [k], [v]))
    else keep(okOp("das.new", [k], [v], [oddValues(v)]))
  }
  /// c: length, m: how many positions
  action vanishing = {
    nondet k = 1.to(6).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet m = 0.to(5).oneOf()
    nondet p = 0.to(1000).oneOf()
    val n = lengthOf(c, 2^k)
    val cnt = if (m == 0) n else if (m == 1) n + 1 else if (m == 2) max(n, 1) - 1 else if (m == 3) 1 else if (m == 4) n / 2 else 0
    val l = range(0, cnt).foldl(List(), (acc, i) => acc.append(if (n == 0) i else if (cnt > n) i else (p + i) % n))
    if (not(isPow2(n)) or n > 2^k or cnt >= n) {
      if (cnt == 0) keep(NoOp) else keep(errOp("zero.poly", [k, n], [l]))
    } else if (cnt == 0) keep(okOp("zero.poly", [k, n], [l], [[], []]))
    else { val z = vanish(l, root(log2(n)))
           keep(okOp("zero.poly", [k, n], [l], [values(z, n, root(log2(n))), padTo(z, n)])) }
  }
  action partials = {
    nondet k = 1.to(6).oneOf()
    nondet c = 0.to(4).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^k
    // factors whose product has n, n + 1 or n - 1 coefficients; a length that is no power of two; an empty list of positions
    if (c == 0) { val a = prand(p, n / 2)
                  val b = prand(p / 2, n / 2 + 1)
                  keep(okOp("zero.reduce", [k, n], [a, b], [pmul(a, b)])) }
    else if (c == 1) keep(errOp("zero.reduce", [k, n], [prand(p, n / 2 + 1), prand(p / 2, n / 2 + 1)]))
    else if (c == 2) keep(errOp("zero.reduce", [k + 2, 3 * n], [[1, 1], [2, 1]]))
    else if (c == 3) keep(errOp("zero.partial", [k, 1], [[]]))
    else { val l = range(0, n).foldl(List(), (acc, i) => acc.append((i * 3 + p) % n))
           keep(okOp("zero.partial", [k, 1], [l], [vanish(l, root(k))])) }
  }
  action recoveries = {
    nondet k = 1.to(6).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet m = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = lengthOf(c, 2^k)
    val cnt = if (m == 0) n else if (m == 1) max(1, n - 1) else if (m == 2) max(1, n / 2) else 1
    val l = range(0, min(cnt, n)).foldl(List(), (acc, i) => acc.append((p + i) % n))
    if (not(isPow2(n)) or n > 2^k or cnt >= n) keep(refOp("rec.bad", [k, n], [l]))
    else { val v = dftFwd(padTo(prand(p, n - cnt), n))
           keep(okOp("rec.new", [k], [v, l], [v])) }
  }
  action commitments = {
    nondet c = 0.to(4).oneOf()
    nondet b = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = if (c <= 1) npts else if (c == 2) npts + 1 else if (c == 3) 2 * npts else 0
    val v = shape(b, p, n)
    if (n > npts) keep(refOp("kzg.commit", [0], [v]))
    else all { g1regs' = g1regs.replaceAt(0, commitment(v, secret)), op' = okOp("kzg.commit", [0], [v], []),
               secret' = secret, npts' = npts, scale' = scale }
  }
  action secrets = {
    nondet c = 0.to(5).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val s = if (c == 0) ORD - 1 else if (c == 1) ORD else if (c == 2) ORD + 1 else if (c == 3) 2^256 - 1 else if (c == 4) 2^255 else p
    val n = 1 + p % 4
    if (s < ORD) keep(okOp("kzg.generate", [n], [[s]], [powers(s, n)])) else keep(refOp("kzg.generate", [n], [[s]]))
  }
  /// coset openings: the polynomial just fits, or its quotient does not
  action openings = {
    nondet e = 0.to(6).oneOf()
    nondet c = 0.to(5).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    val n = if (c == 0) 3 * (1 + p % 9) else if (c == 1) 0 else 2^e
    val len = if (c == 2) npts + n else if (c == 3) npts + n + 1 else 1 + p % (npts + n)
    val v = prand(p, len)
    if (not(isPow2(n))) keep(errOp("kzg.provenew", [n], [[p], v]))
    else if (len > npts + n) keep(refOp("kzg.provenew", [n], [[p], v]))
    else keep(okOp("kzg.provenew", [n], [[p], v], [[opening(v, p, n, secret)]]))
  }
  /// coset verification with `l` values for the count n
  action verifications = {
    nondet e = 0.to(6).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    nondet d = 0.to(1).oneOf()
    val w = 2^scale
    val n = if (c == 0) w else if (c == 1) 2 * w else if (c == 2) nextPow2(npts) else if (c == 3) nextPow2(npts) / 2
            else if (c == 4) 3 * (1 + p % 5) else if (c == 5) 0 else 2^(e % (scale + 1))
    val l = if (c == 6) (if (p % 3 == 0) n + 1 else if (p % 3 == 1) 2 * n else n / 2) else n
    val vs = prand(p, l)
    if (not(isPow2(n))) keep(errOp("kzg.checkmx", [0, 0, n], [[p, 1, p], vs]))
    else if (n > w or n >= npts or l != n) keep(refOp("kzg.checkmx", [0, 0, n], [[p, 1, p], vs]))
    else {
      val com = fadd(d, fadd(interpolated(vs, p, secret), fmul(p, fsub(fpow(secret, n), fpow(p, n)))))
      keep(okOp("kzg.checkmx", [0, 0, n], [[com, p, p], vs], [[b2i(validMulti(com, p, p, vs, secret))]]))
    }
  }
  /// amortising settings: size and chunk
  action amortised = {
    nondet c = 0.to(7).oneOf()
    nondet d = 0.to(7).oneOf()
    nondet s = 0.to(1).oneOf()
    nondet o = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = lengthOf(c, 2^scale)
    val l = if (s == 0) 0 else if (d == 0) n / 2 else if (d == 1) n else if (d == 2) 3 else if (d == 3) n / 2 + 1 else 2^(d - 4)
    // the single-proof settings use points 0 .. n/2 - 2, those for chunks the same
    val bad = not(isPow2(n)) or n < 2 or n > 2^scale or (s == 1 and (not(isPow2(l)) or l > n / 2))
    if (bad) keep(if (s == 1 and l == 0) refOp("fk.zerochunk", [n], []) else errOp("fk.new", [n, l], []))
    else if (n / 2 > npts) keep(NoOp)
    else { val v = prand(p, n / 2)
           val step1 = max(1, l)
           val ps = powers(root(log2(n)), n / step1).foldl(List(), (acc, x) => acc.append(opening(v, x, step1, secret)))
           val k = log2(ps.length())
           keep(okOp("fk.once", [n, l, o], [v], [if (o == 1) ps else range(0, ps.length()).foldl(List(), (acc, t) => acc.append(ps[bitrev(t, k)]))])) }
  }
  /// proofs of a polynomial that does not fit the settings
  action amortisedLength = {
    nondet c = 0.to(5).oneOf()
    nondet s = 0.to(1).oneOf()
    nondet o = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^scale
    val len = if (c == 0) n / 2 + 1 else if (c == 1) n else if (c == 2) max(n / 2, 1) - 1 else if (c == 3) 0 else if (c == 4) n / 4 else 2 * n
    if (n < 2 or n / 2 > npts or len == n / 2) keep(NoOp)
    else keep(refOp("fk.once", [n, s, o], [prand(p, len)]))
  }
  action divisions = {
    nondet c = 0.to(5).oneOf()
    nondet m = 0.to(2).oneOf()
    nondet k = 1.to(200).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    val a = prand(p, k)
    // divisors: none, zero constant, one coefficient, as long as the dividend, one longer, linear
    val b = if (c == 0) [] else if (c == 1) [0] else if (c == 2) [p] else if (c == 3) prand(p / 2, k) else if (c == 4) prand(p / 2, k + 1) else [p, 1]
    if (c == 1) keep(NoOp)
    else if (c == 0) keep(errOp("poly.divnew", [m], [a, b]))
    else keep(okOp("poly.divnew", [m], [a, b], [pdivmod(a, b)._1]))
  }
  action inverses = {
    nondet c = 0.to(3).oneOf()
    nondet k = 1.to(80).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    val a = if (c == 0) [] else if (c == 1) [0].concat(prand(p, k)) else if (c == 2) [p] else prand(p, k)
    if (c <= 1) keep(errOp("poly.invnew", [k], [a]))
    else {
      val f = finv(a[0])
      val inv = range(1, k).foldl([f], (acc, t) =>
        acc.append(fmul(fneg(f), span(max(0, t + 1 - a.length()), t).foldl(0, (s, u) => s + acc[u] * a[t - u]) % ORD)))
      keep(okOp("poly.invnew", [k], [a], [inv]))
    }
  }
  /// another setup
  action setup = {
    nondet k = 0.to(5).oneOf()
    nondet n = 2.to(33).oneOf()
    nondet p = 2.to(ORD - 1).oneOf()
    all { secret' = p, npts' = n, scale' = k, op' = okOp("kzg.use", [k, n], [[p]], []), g1regs' = g1regs }
  }
  action step = {
    nondet kind = 0.to(17).oneOf()
    if (kind == 0) setup else if (kind == 1) scales else if (kind == 2) expansions else if (kind == 3) transforms else if (kind == 4) groupTransforms
    else if (kind == 5) extensions else if (kind == 6) vanishing else if (kind == 7) partials else if (kind == 8) recoveries
    else if (kind == 9) commitments else if (kind == 10) secrets else if (kind == 11) openings else if (kind <= 13) verifications
    else if (kind == 14) amortised else if (kind == 15) amortisedLength else if (kind == 16) divisions else inverses
  }
  val inField = g1regs.foldl(true, (acc, x) => acc and x >= 0 and x < ORD)
}
