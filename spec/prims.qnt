// -*- mode: Bluespec; -*-
/// Shared vocabulary of all specifications: lists, integers, powers of two, and the record by
/// which a machine tells the conformance driver which call it makes and what it must return.
module prims {

  /// One API call and its specified outcome.
  ///   name  which call
  ///   n     small integer parameters (sizes, register numbers, flags)
  ///   a     argument vectors
  ///   r     result vectors (group elements are given by their discrete logarithm)
  ///   ok    "ok"  the call returns exactly r
  ///         "err" the call returns an error value
  ///         "ref" the call is refused: an error value or an abort, never a result
  type Op = { name: str, n: List[int], a: List[List[int]], r: List[List[int]], ok: str }

  pure val NoOp: Op = { name: "init", n: [], a: [], r: [], ok: "ok" }

  pure def okOp(name: str, n: List[int], a: List[List[int]], r: List[List[int]]): Op =
    { name: name, n: n, a: a, r: r, ok: "ok" }
  pure def errOp(name: str, n: List[int], a: List[List[int]]): Op =
    { name: name, n: n, a: a, r: [], ok: "err" }
  pure def refOp(name: str, n: List[int], a: List[List[int]]): Op =
    { name: name, n: n, a: a, r: [], ok: "ref" }

  /// a, ..., b-1, and nothing if a >= b (the builtin range counts downwards then)
  pure def span(a: int, b: int): List[int] = if (a < b) range(a, b) else []
  pure def b2i(b: bool): int = if (b) 1 else 0
  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def max(a: int, b: int): int = if (a > b) a else b

  // No operator here takes an operator as argument: Quint's simulator does not evaluate nested uses of such
  // an operator correctly.  Lists are built with the builtin foldl.
  pure def rep(n: int, x: a): List[a] = range(0, n).foldl(List(), (acc, i) => acc.append(x))
  pure def take(l: List[a], n: int): List[a] = l.slice(0, min(n, l.length()))
  pure def drop(l: List[a], n: int): List[a] = l.slice(min(n, l.length()), l.length())
  pure def rev(l: List[a]): List[a] = range(0, l.length()).foldl(List(), (acc, i) => acc.append(l[l.length() - 1 - i]))
  pure def at(l: List[int], i: int): int = if (i < l.length()) l[i] else 0
  pure def last(l: List[a]): a = l[l.length() - 1]
  pure def member(l: List[int], x: int): bool = l.foldl(false, (acc, y) => acc or x == y)

  pure def isPow2(n: int): bool =
    n > 0 and range(0, 40).foldl(n, (x, i) => if (x % 2 == 0) x / 2 else x) == 1
  pure def nextPow2(n: int): int = range(0, 40).foldl(1, (x, i) => if (x < n) x * 2 else x)
  pure def log2(n: int): int = range(0, 64).foldl((n, 0), (st, i) => if (st._1 > 1) (st._1 / 2, st._2 + 1) else st)._2
  /// the lowest `bits` bits of i in reverse order
  pure def bitrev(i: int, bits: int): int =
    range(0, bits).foldl((i, 0), (st, k) => (st._1 / 2, 2 * st._2 + st._1 % 2))._2
}

/// Arithmetic in the integers modulo the prime Q.
module field {
  import prims.* from "./prims"
  const Q: int
  pure val ORD = Q

  pure def fadd(a: int, b: int): int = (a + b) % Q
  pure def fsub(a: int, b: int): int = (a + Q - b) % Q
  pure def fneg(a: int): int = (Q - a) % Q
  pure def fmul(a: int, b: int): int = (a * b) % Q
  pure def fsqr(a: int): int = (a * a) % Q
  pure def fpow(b: int, e: int): int =
    range(0, 400).foldl((1, b, e), (st, i) =>
      if (st._3 == 0) st
      else (if (st._3 % 2 == 1) (st._1 * st._2) % Q else st._1, (st._2 * st._2) % Q, st._3 / 2))._1
  /// the inverse; 0 for 0
  pure def finv(a: int): int =
    if (a == 0) 0 else {
      val x = range(0, 600).foldl((a, Q, 1, 0), (st, i) =>
        if (st._1 == 0) st
        else { val d = st._2 / st._1
               (st._2 - d * st._1, st._1, st._4 - d * st._3, st._3) })._4
      ((x % Q) + Q) % Q
    }
  pure def fdiv(a: int, b: int): int = fmul(a, finv(b))
  /// Euler's criterion
  pure def fIsSquare(a: int): bool = a == 0 or fpow(a, (Q - 1) / 2) == 1

  /// inverses of a list of non-zero elements with one inversion
  pure def finvAll(l: List[int]): List[int] = {
    val n = l.length()
    val pre = l.foldl([1], (acc, x) => acc.append(fmul(last(acc), x)))
    val t = range(0, n).foldl((finv(pre[n]), List()), (st, k) => {
      val i = n - 1 - k
      (fmul(st._1, l[i]), st._2.append(fmul(st._1, pre[i])))
    })._2
    rev(t)
  }

  /// b^0, ..., b^(n-1)
  pure def powers(b: int, n: int): List[int] =
    range(0, n).foldl((List(), 1), (st, i) => (st._1.append(st._2), fmul(st._2, b)))._1
  pure def vadd(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl(List(), (acc, i) => acc.append(fadd(a[i], b[i])))
  pure def vsum(a: List[int]): int = a.foldl(0, (s, x) => s + x) % Q
  pure def dot(a: List[int], b: List[int]): int =
    range(0, min(a.length(), b.length())).foldl(0, (s, i) => s + a[i] * b[i]) % Q

  /// a pseudo-random sequence of n field elements
  pure def prand(seed: int, n: int): List[int] =
    range(0, n).foldl((List(), fadd(fmul(seed, seed), 7)), (st, i) =>
      (st._1.append(st._2), fadd(fmul(st._2, st._2), 12345 + i)))._1

  /// polynomials are coefficient lists, lowest degree first
  pure def peval(p: List[int], x: int): int =
    range(0, p.length()).foldl(0, (acc, i) => (acc * x + p[p.length() - 1 - i]) % Q)
  pure def pmulTrunc(a: List[int], b: List[int], n: int): List[int] =
    range(0, n).foldl(List(), (acc, k) => acc.append(span(max(0, k + 1 - b.length()), min(a.length(), k + 1)).foldl(0, (s, i) => s + a[i] * b[k - i]) % Q))
  pure def pmul(a: List[int], b: List[int]): List[int] =
    if (a.length() == 0 or b.length() == 0) [] else pmulTrunc(a, b, a.length() + b.length() - 1)
  pure def padTo(a: List[int], n: int): List[int] = range(0, n).foldl(List(), (acc, i) => acc.append(at(a, i)))
  pure def norm(a: List[int]): List[int] = {
    val n = range(0, a.length()).foldl(0, (m, i) => if (a[i] != 0) i + 1 else m)
    take(a, n)
  }
  pure def isZeroPoly(a: List[int]): bool = a.foldl(true, (acc, x) => acc and (x == 0))
  /// (quotient, remainder); the leading coefficient of b is not zero
  pure def pdivmod(a: List[int], b: List[int]): (List[int], List[int]) =
    if (a.length() < b.length()) ([], a) else {
      val m = a.length()
      val n = b.length()
      val li = finv(b[n - 1])
      // quotient coefficients from the top: q_k = (a_{k+n-1} - sum_{j>k} q_j b_{k+n-1-j}) / b_{n-1}
      val qr = range(0, m - n + 1).foldl(List(), (q, i) => {
        val k = m - n - i
        // q holds q_{m-n}, ..., q_{k+1}
        val s = span(max(0, i - n + 1), i).foldl(0, (s, t) => s + q[t] * b[k + n - 1 - (m - n - t)]) % Q
        q.append(fmul(fsub(a[k + n - 1], s), li))
      })
      val q = rev(qr)
      val bq = pmulTrunc(q, b, n - 1)
      (q, range(0, n - 1).foldl(List(), (acc, i) => acc.append(fsub(a[i], bq[i]))))
    }
}
