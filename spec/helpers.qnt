/// Steps that larger algorithms are made of.

/// Toeplitz products and the reversal of bits (property C32).
module toeplitzMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"
  import dft.* from "./fft"

  var op: Op
  action init = all { op' = NoOp }

  /// the product of the circulant matrix whose first column is c, of length 2n, and x, of length n, filled with zeros:
  /// its first n entries
  pure def product(c: List[int], x: List[int]): List[int] = {
    val n = x.length()
    range(0, n).foldl(List(), (acc, i) => acc.append(range(0, n).foldl(0, (s, j) => s + c[(i + 2 * n - j) % (2 * n)] * x[j]) % ORD))
  }
  /// the three steps: transform the points, multiply by the transformed column, transform back and cut off
  action steps = {
    nondet k = 0.to(4).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet t = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val n = 2^k
    val c = shape(s, p, 2 * n)
    val x = shape(t, p / 3, n)
    val fx = dftFwd(padTo(x, 2 * n))
    val fc = dftFwd(c)
    val y = range(0, 2 * n).foldl(List(), (acc, i) => acc.append(fmul(fx[i], fc[i])))
    op' = okOp("toe.steps", [k + 1 + d], [c, x], [fx, y, padTo(product(c, x), 2 * n)])
  }
  /// the column for a polynomial: of every stride-th coefficient, f = [p[stride - 1 - offset], p[2 stride - 1 - offset], ...]
  /// of length m, the last comes first and the others but the first come last
  pure def column(p: List[int], offset: int, stride: int): List[int] = {
    val m = p.length() / stride
    val f = range(0, m).foldl(List(), (acc, j) => acc.append(p[stride * (j + 1) - 1 - offset]))
    range(0, 2 * m).foldl(List(), (acc, i) => acc.append(if (i == 0) f[m - 1] else if (i >= m + 2) f[i - m - 1] else 0))
  }
  action columns = {
    nondet k = 0.to(7).oneOf()
    nondet e = 0.to(7).oneOf()
    nondet o = 0.to(127).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val stride = 2^(e % (k + 1))
    val q = shape(s, p, 2^k)
    op' = okOp("toe.column", [o % stride, stride], [q], [column(q, o % stride, stride)])
  }
  action columnBad = {
    nondet k = 0.to(4).oneOf()
    op' = refOp("toe.column", [0, 0], [rep(2^k, 3)])
  }
  /// the product with the column of f gives the coefficients the openings are combined from: h_i = sum of f_(i+1+j) x_j
  action opening = {
    nondet k = 0.to(3).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet z = 0.to(ORD - 1).oneOf()
    val n = 2^k
    val f = shape(s, p, n)
    // powers of a secret in reverse, the last of them infinite
    val x = rev(powers(z, n)).slice(1, n).append(0)
    val h = range(0, n).foldl(List(), (acc, i) => acc.append(span(i + 1, n).foldl(0, (t, j) => t + f[j] * fpow(z, j - i - 1)) % ORD))
    op' = okOp("toe.opening", [k + 1], [f, x], [h])
  }
  action reversal = {
    nondet k = 0.to(10).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val v = range(0, 2^k).foldl(List(), (acc, i) => acc.append((p + i) % ORD))
    op' = okOp("toe.reverse", [], [v], [range(0, 2^k).foldl(List(), (acc, i) => acc.append(v[bitrev(i, k)]))])
  }
  /// the transform of every 2^s-th value, with the roots of larger settings
  action strided = {
    nondet d = 0.to(3).oneOf()
    nondet j = 0.to(5).oneOf()
    nondet s = 0.to(3).oneOf()
    nondet t = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val v = shape(t, p, 2^(j + s))
    op' = okOp("toe.strided", [j + d, j, s], [v], [dftFwd(range(0, 2^j).foldl(List(), (acc, i) => acc.append(v[i * 2^s])))])
  }
  /// the transform that is called with the settings as an argument; other lengths than powers of two up to the width are refused
  action free = {
    nondet k = 0.to(6).oneOf()
    nondet d = 0.to(2).oneOf()
    nondet i = Set(true, false).oneOf()
    nondet t = 0.to(NSHAPES - 1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet c = 0.to(9).oneOf()
    val v = shape(t, p, 2^k)
    if (c == 0) op' = errOp("toe.free", [k, b2i(i)], [shape(t, p, 2^(k + 1 + d))])
    else if (c == 1) op' = errOp("toe.free", [k + d, b2i(i)], [shape(t, p, if (k < 2) 0 else 2^k - 1 - p % (2^(k - 1) - 1))])
    else op' = okOp("toe.free", [k + d, b2i(i)], [v], [if (i) dftInv(v) else dftFwd(v)])
  }
  action step = {
    nondet kind = 0.to(12).oneOf()
    if (kind == 12) free else if (kind >= 10) strided else if (kind <= 3) steps else if (kind <= 6) columns else if (kind == 7) opening else if (kind == 8) reversal
    else { nondet z = 0.to(4).oneOf()
           if (z == 0) columnBad else reversal }
  }
  /// a product is that of the transforms; the reversal is its own inverse
  val inv =
    if (op.name == "toe.steps") dftInv(op.r[1]).slice(0, op.a[1].length()) == op.r[2].slice(0, op.a[1].length())
    else if (op.name == "toe.opening") {
      val n = op.a[0].length()
      product(column(op.a[0], 0, 1), op.a[1]) == op.r[0]
    }
    else if (op.name == "toe.reverse") {
      val k = log2(op.a[0].length())
      range(0, 2^k).foldl(true, (acc, i) => acc and op.r[0][bitrev(i, k)] == op.a[0][i])
    } else true
}

/// Helpers on polynomials and sizes (property C33).
module helperMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import shapes.* from "./poly"

  var polys: List[List[int]]
  var op: Op
  pure val NP = 3
  action init = all { polys' = [[1], [2, 0], [0, 0, 3]], op' = okOp("help.init", [], [[1], [2, 0], [0, 0, 3]], []) }
  action keep(o: Op): bool = all { polys' = polys, op' = o }
  action store(o: Op, d: int, v: List[int]): bool = all { polys' = polys.replaceAt(d, v), op' = o }

  action load = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet s = 0.to(NSHAPES - 1).oneOf()
    nondet c = 0.to(6).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val v = shape(s, p, len(c, p / 3, if (p % 5 == 0) 100 else 40))
    store(okOp("help.load", [d], [v], []), d, v)
  }
  /// without the leading coefficients that are zero; backwards
  action normed = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet k = 0.to(1).oneOf()
    store(okOp("help.norm", [d, i, k], [], []), d, if (k == 0) norm(polys[i]) else rev(polys[i]))
  }
  /// filled with zeros or cut off; the third form refuses to cut off
  action padded = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet k = 0.to(2).oneOf()
    nondet n = 0.to(70).oneOf()
    if (k == 2 and n < polys[i].length()) keep(errOp("help.pad", [d, i, k, n], []))
    else store(okOp("help.pad", [d, i, k, n], [], []), d, padTo(polys[i], n))
  }
  action quotientLength = {
    nondet i = 0.to(NP - 1).oneOf()
    nondet j = 0.to(NP - 1).oneOf()
    keep(okOp("help.length", [i, j], [], [[max(0, polys[i].length() + 1 - polys[j].length())]]))
  }
  /// division by X - z, for a polynomial without leading zeros
  action linear = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val z = element(c, p)
    val q = norm(polys[i])
    val v = if (q.length() < 2) [] else pdivmod(q, [fneg(z), 1])._1
    store(okOp("help.linear", [d, i], [[z]], []), d, v)
  }
  /// coefficient i is multiplied by 5^-i (recovery's form) or 5^-(i+1) (the interface's), or by the inverse of that
  action scaled = {
    nondet i = 0.to(NP - 1).oneOf()
    nondet k = 0.to(3).oneOf()
    val f = if (k % 2 == 0) finv(5) else 5
    val q = polys[i]
    val ps = powers(f, q.length() + 1)
    if (q.length() == 0) keep(NoOp)
    else store(okOp("help.scale", [i, k], [], []), i, range(0, q.length()).foldl(List(), (acc, t) => acc.append(fmul(q[t], ps[if (k <= 1) t else t + 1]))))
  }
  /// the product cut off or filled up to a length, by whichever algorithm suits it
  action product = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet i = 0.to(NP - 1).oneOf()
    nondet j = 0.to(NP - 1).oneOf()
    nondet n = 1.to(90).oneOf()
    if (polys[i].length() == 0 or polys[j].length() == 0) keep(NoOp)
    else store(okOp("help.mul", [d, i, j, n], [], []), d, padTo(pmulTrunc(polys[i], polys[j], n), n))
  }
  /// new, length, reading and writing one coefficient
  action accessed = {
    nondet d = 0.to(NP - 1).oneOf()
    nondet n = 0.to(40).oneOf()
    nondet t = 0.to(40).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet k = 0.to(2).oneOf()
    val q = polys[d]
    if (k == 0) store(okOp("help.new", [d, n], [], []), d, rep(n, 0))
    else if (t < q.length()) store(okOp("help.set", [d, t], [[p]], [[q[t], q.length()]]), d, q.replaceAt(t, p))
    else keep(refOp("help.set", [d, t], [[p]]))
  }
  /// sizes: power of two, next power of two, logarithms, smaller of two
  action sizes = {
    nondet c = 0.to(4).oneOf()
    nondet k = 0.to(62).oneOf()
    nondet p = 0.to(2^62).oneOf()
    nondet b = 1.to(255).oneOf()
    val n = max(1, if (c == 0) 2^k else if (c == 1) 2^k + 1 else if (c == 2) 2^k - 1 else if (c == 3) p % 2^k else 2^k + p % 2^k)
    val low = 2^(k % 32)
    // the next power of two is in range up to 2^62
    keep(okOp("help.sizes", [n, low, b], [], [[b2i(isPow2big(n)), if (n <= 2^62) nextPow(n) else 0, logOf(n), k % 32, logOf(b), min(n, low)]]))
  }
  pure def logOf(n: int): int = log2(n)
  pure def nextPow(n: int): int = range(0, 63).foldl(1, (x, i) => if (x < n) x * 2 else x)
  pure def isPow2big(n: int): bool = nextPow(n) == n
  action step = {
    nondet kind = 0.to(14).oneOf()
    if (kind <= 2) load else if (kind == 14) product else if (kind <= 4) normed else if (kind <= 6) padded else if (kind == 7) quotientLength else if (kind <= 9) linear
    else if (kind == 10) scaled else if (kind == 11) accessed else sizes
  }
  val inv = polys.foldl(true, (acc, q) => acc and q.foldl(true, (b, x) => b and x >= 0 and x < ORD))
    and (if (op.name == "help.sizes") (op.r[0][1] == 0 or (op.r[0][1] >= op.n[0] and op.r[0][1] < 2 * op.n[0])) and 2^(op.r[0][2]) <= op.n[0] and op.n[0] < 2^(op.r[0][2] + 1) else true)
}
