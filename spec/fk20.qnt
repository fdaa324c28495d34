/// Amortised proofs for all positions of an extended polynomial (properties C24 and C25).
///
/// The specification computes every proof on its own, as the opening of C17 and C19; the library computes all
/// of them together through group transforms.
module fkMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"
  import kzgalg.* from "./kzg"

  var secret: int
  var npts: int
  var scale: int
  /// the amortising settings in use: extended size and chunk length (0: single proofs)
  var width: int
  var chunk: int
  var op: Op

  action init = all {
    secret' = 7, npts' = 3, scale' = 2, width' = 4, chunk' = 0,
    op' = okOp("fk.start", [2, 3, 4], [[7]], []),
  }
  action keep(o: Op): bool = all { secret' = secret, npts' = npts, scale' = scale, width' = width, chunk' = chunk, op' = o }

  /// a setup for polynomials of 2^k / 2 coefficients, and settings of its full width with chunks of length l
  action setupOf(k: int, more: int, wider: int, s: int, l: int): bool = {
    val n = max(2, 2^k / 2)
    all { secret' = s, npts' = n + more, scale' = k + wider, width' = 2^k, chunk' = l,
          op' = okOp("fk.setup", [k + wider, n + more, 2^k, l], [[s]], []) }
  }
  action setup1 = {
    nondet k = 1.to(5).oneOf()
    nondet more = 0.to(2).oneOf()
    nondet wider = 0.to(2).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    setupOf(k, more, wider, element(c, p), 0)
  }
  action setupN = {
    nondet k = 1.to(6).oneOf()
    nondet e = 0.to(5).oneOf()
    nondet more = 0.to(2).oneOf()
    nondet wider = 0.to(2).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    setupOf(k, more, wider, element(c, p), 2^(e % k))
  }
  action setupBig1 = {
    nondet k = 6.to(7).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    setupOf(k, 1, 0, p, 0)
  }
  action setupBigN = {
    nondet k = 7.to(8).oneOf()
    nondet e = 0.to(7).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    setupOf(k, 1, 0, p, 2^(e % k))
  }
  /// the proofs, in natural order
  def proofs(p: List[int]): List[int] = {
    val l = max(1, chunk)
    val xs = powers(root(log2(width)), width / l)
    xs.foldl(List(), (acc, x) => acc.append(opening(p, x, l, secret)))
  }
  pure def reversed(v: List[int]): List[int] = {
    val k = log2(v.length())
    range(0, v.length()).foldl(List(), (acc, i) => acc.append(v[bitrev(i, k)]))
  }
  /// settings of another size over the same setup
  action again = {
    nondet k = 1.to(6).oneOf()
    nondet e = 0.to(6).oneOf()
    if (2^k > 2^scale or 2^k / 2 > npts) keep(okOp("fk.clone", [], [], []))
    else {
      val l = if (chunk == 0) 0 else 2^(e % k)
      all { secret' = secret, npts' = npts, scale' = scale, width' = 2^k, chunk' = l, op' = okOp("fk.new", [2^k, l], [], []) }
    }
  }
  action compute = {
    nondet o = 0.to(1).oneOf()
    nondet c = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val poly = shape(c, p, width / 2)
    val ps = proofs(poly)
    keep(okOp("fk.all", [o], [poly], [if (o == 0) reversed(ps) else ps]))
  }
  /// polynomials of another length
  action otherLength = {
    nondet o = 0.to(1).oneOf()
    nondet l = 0.to(4).oneOf()
    nondet c = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = width / 2
    val m = if (l == 0) n + 1 else if (l == 1) 2 * n else if (l == 2) n - 1 else if (l == 3) n / 2 else p % (2 * n)
    if (m == n) keep(okOp("fk.clone", [], [], []))
    else keep(refOp("fk.all", [o], [shape(c, p, m)]))
  }
  /// sizes that are zero, one, no power of two or too wide; chunks that are zero, no power of two or too long
  action badSettings = {
    nondet c = 0.to(7).oneOf()
    nondet p = 0.to(100000).oneOf()
    val n = if (c == 0) 0 else if (c == 1) 1 else if (c == 2) 2^(scale + 1) else if (c == 3) min(2^scale, 3 * (1 + p % 5)) else width
    val l = if (chunk == 0) 0 else if (c == 4) n else if (c == 5) 3 else if (c == 6) 2 * n + p % 3 else if (c == 7) n / 2 + 1 else 1
    val bad = c <= 2 or not(isPow2(n)) or (chunk > 0 and (not(isPow2(l)) or l > n / 2))
    if (bad) keep(refOp("fk.new", [n, l], []))
    else keep(okOp("fk.clone", [], [], []))
  }
  /// no chunk length at all
  action noChunk = keep(if (chunk == 0) okOp("fk.clone", [], [], []) else refOp("fk.zerochunk", [width], []))
  action step1 = {
    nondet kind = 0.to(9).oneOf()
    if (chunk != 0 or kind == 0) setup1 else if (kind == 1) again else if (kind <= 7) compute else if (kind == 8) otherLength else badSettings
  }
  action stepN = {
    nondet kind = 0.to(11).oneOf()
    if (chunk == 0 or kind == 0) setupN else if (kind == 1) again else if (kind <= 8) compute else if (kind == 9) otherLength
    else if (kind == 10) badSettings else noChunk
  }
  action stepBig1 = {
    nondet kind = 0.to(3).oneOf()
    if (width < 64) setupBig1 else if (kind == 0) again else compute
  }
  action stepBigN = {
    nondet kind = 0.to(3).oneOf()
    if (width < 128) setupBigN else compute
  }
  /// every proof verifies against the commitment and the values of the polynomial
  val verifies =
    if (op.name == "fk.all" and op.ok == "ok") {
      val l = max(1, chunk)
      val k = log2(op.r[0].length())
      val com = commitment(op.a[0], secret)
      range(0, min(4, op.r[0].length())).foldl(true, (acc, i) => {
        val x = fpow(root(log2(width)), if (op.n[0] == 0) bitrev(i, k) else i)
        acc and validMulti(com, op.r[0][i], x, valuesOn(op.a[0], x, l), secret)
      })
    } else true
}
