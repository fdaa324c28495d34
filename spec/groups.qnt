/// The two groups and the pairing on discrete logarithms (properties C04, C05 and C07).
///
/// A group element is its logarithm to the base of the standard generator, an element of the target group its
/// logarithm to the base of the pairing of the generators.  The driver keeps real points, reached by whatever
/// calls led to them, and compares their affine coordinates with those of the reference after every step.
module groupAlg {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"

  /// the curve parameter
  pure val X = fneg(0xd201000000010000)
  /// clearing the cofactor multiplies an element of the first group by 1 - X, and one of the second by
  /// (X^2 - X - 1) + (X - 1) F + 2 F^2, where the endomorphism F is the multiplication by X
  pure val CLEAR1 = fsub(1, X)
  pure val CLEAR2 = fadd(fsub(fsub(fmul(X, X), X), 1), fadd(fmul(fsub(X, 1), X), fmul(2, fmul(X, X))))

  /// the endomorphism of the first group, (x, y) to (b x, y), is the multiplication by -X^2, so scalars may be split as
  /// k1 + k2 (X^2 - 1)
  pure val SPLIT = 0xd201000000010000 * 0xd201000000010000 - 1

  /// scalars that exercise single bits, runs, words and the ends of the range, and those about the edges of splitting:
  /// about multiples, about halves of multiples, and where the second part reaches a full word
  pure def scalar(c: int, p: int): int =
    if (c == 0) p % 4
    else if (c == 1) ORD - 1 - p % 3
    else if (c == 2) 2^(p % 255) % ORD
    else if (c == 3) (2^(p % 255) - 1) % ORD
    else if (c == 4) element(0, p)
    else if (c == 5) element(1, p)
    else if (c == 6) (p % 2^16) * 2^(64 * (p / 2^16 % 4)) % ORD
    else if (c == 8) (p / 8 % 2^127 * SPLIT + p % 8) % ORD
    else if (c == 9) (p / 8 % 2^127 * SPLIT + SPLIT / 2 + p % 8 - 4) % ORD
    else if (c == 10) ((1 + p / 2^130 % 2^62) * 2^64 * SPLIT - p % (SPLIT / 2)) % ORD
    else if (c == 11) ((1 + p / 2^130 % 2^62) * 2^64 * SPLIT - p % (SPLIT / 2) - SPLIT / 2) % ORD
    else if (c == 12) ((1 + p / 2^130 % 2^62) * 2^64 * SPLIT + p % (SPLIT / 2)) % ORD
    else p % ORD
}

module groupMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import groupAlg.* from "./groups"

  pure val NR = 5
  var g1regs: List[int]
  var g2regs: List[int]
  var op: Op

  action init1 = all { g1regs' = [0, 1, ORD - 1, 2, 5], g2regs' = List(), op' = okOp("g1.init", [0], [[0, 1, ORD - 1, 2, 5]], []) }
  action init2 = all { g1regs' = List(), g2regs' = [0, 1, ORD - 1, 2, 5], op' = okOp("g2.init", [0], [[0, 1, ORD - 1, 2, 5]], []) }
  action init = init1

  def regs = if (g1regs.length() > 0) g1regs else g2regs
  def first = g1regs.length() > 0
  action putReg(o: Op, d: int, v: int): bool = all {
    g1regs' = if (first) g1regs.replaceAt(d, v) else g1regs,
    g2regs' = if (first) g2regs else g2regs.replaceAt(d, v),
    op' = o,
  }
  action look(o: Op): bool = all { g1regs' = g1regs, g2regs' = g2regs, op' = o }

  /// a point given by its logarithm, often related to a present one, in one of several representations
  action load = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet c = 0.to(8).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet how = 0.to(4).oneOf()
    val x = regs[i]
    val v = if (c == 0) 0 else if (c == 1) x else if (c == 2) fneg(x) else if (c == 3) fadd(x, x) else if (c == 4) fadd(x, 1) else scalar(c - 1, p)
    putReg(okOp("g.load", [d, how], [[v]], []), d, v)
  }
  action bin = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet k = 0.to(14).oneOf()
    val x = regs[i]
    val y = regs[j]
    // additions: operator, in place, add-or-double, method, mixed in both orders, in place mixed;
    // subtractions: operator, in place, interface, mixed in both orders, in place mixed
    val v = if (k <= 7) fadd(x, y) else fsub(x, y)
    putReg(okOp(if (k <= 7) "g.add" else "g.sub", [d, i, j, k], [], [[v]]), d, v)
  }
  /// equal and opposite operands in different representations
  action meet = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet k = 0.to(14).oneOf()
    nondet how = 0.to(4).oneOf()
    nondet s = 0.to(2).oneOf()
    val x = regs[i]
    val y = if (s == 0) x else if (s == 1) fneg(x) else 0
    val v = if (k <= 7) fadd(x, y) else fsub(x, y)
    putReg(okOp("g.meet", [d, i, k, how], [[y]], [[v]]), d, v)
  }
  action una = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet k = 0.to(5).oneOf()
    val x = regs[i]
    // double (interface, method), negate (operator, affine), normalise, clear the cofactor
    val v = if (k <= 1) fadd(x, x) else if (k <= 3) fneg(x) else if (k == 4) x else fmul(x, if (first) CLEAR1 else CLEAR2)
    putReg(okOp("g.una", [d, i, k], [], [[v]]), d, v)
  }
  action times = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet c = 0.to(12).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet k = 0.to(3).oneOf()
    val s = scalar(c, p)
    val v = fmul(regs[i], s)
    putReg(okOp("g.times", [d, i, k], [[s]], [[v]]), d, v)
  }
  action constants = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet k = 0.to(6).oneOf()
    // identity and default, generator, opposite of the generator; of the interface, methods, affine
    val v = if (k <= 2) 0 else if (k <= 5) 1 else ORD - 1
    putReg(okOp("g.const", [d, k], [], [[v]]), d, v)
  }
  action sum = {
    nondet d = 0.to(NR - 1).oneOf()
    // registers are taken again from the first when there are not enough
    nondet few = 0.to(NR).oneOf()
    nondet many = 0.to(40).oneOf()
    nondet z = 0.to(2).oneOf()
    val l = if (z == 0) many else few
    val v = range(0, l).foldl(0, (s, i) => fadd(s, regs[i % NR]))
    putReg(okOp("g.sum", [d, l], [], [[v]]), d, v)
  }
  action normalize = {
    nondet few = 0.to(NR).oneOf()
    nondet many = 0.to(70).oneOf()
    nondet z = 0.to(2).oneOf()
    val l = if (z == 0) many else few
    // every element after the registers is the one a round before plus the first two
    val v = range(0, l).foldl(List(), (acc, i) => acc.append(if (i < NR) regs[i] else fadd(acc[i - NR], if (i % 3 == 0) regs[0] else regs[1])))
    look(okOp("g.batch", [l], [], [v]))
  }
  action tests = {
    nondet i = 0.to(NR - 1).oneOf()
    look(okOp("g.tests", [i], [], [[b2i(regs[i] == 0)]]))
  }
  action equal = {
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet how = 0.to(4).oneOf()
    nondet c = 0.to(5).oneOf()
    val y = if (c == 0) regs[i] else if (c == 1) fneg(regs[i]) else if (c == 2) 0 else regs[j]
    look(okOp("g.equal", [i, how], [[y]], [[b2i(regs[i] == y)]]))
  }
  action random = look(okOp("g.rand", [], [], []))
  action step = {
    nondet kind = 0.to(19).oneOf()
    if (kind <= 3) load
    else if (kind <= 7) bin
    else if (kind <= 10) meet
    else if (kind <= 12) una
    else if (kind <= 14) times
    else if (kind == 15) constants
    else if (kind == 16) { nondet z = 0.to(1).oneOf()
      if (z == 0) sum else normalize }
    else if (kind == 17) tests
    else if (kind == 18) equal
    else { nondet z = 0.to(3).oneOf()
      if (z == 0) random else equal }
  }
  val inField = regs.foldl(true, (acc, x) => acc and (x >= 0 and x < ORD))
}

module pairingMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import groupAlg.* from "./groups"

  pure val NR = 4
  var g1regs: List[int]
  var g2regs: List[int]
  /// elements of the target group
  var gtregs: List[int]
  var op: Op

  pure val START = [0, 1, ORD - 1, 7]
  action init = all { g1regs' = START, g2regs' = START, gtregs' = [0, 0, 0], op' = okOp("pair.init", [3], [START], []) }
  action putT(o: Op, d: int, v: int): bool = all { g1regs' = g1regs, g2regs' = g2regs, gtregs' = gtregs.replaceAt(d, v), op' = o }
  action look(o: Op): bool = all { g1regs' = g1regs, g2regs' = g2regs, gtregs' = gtregs, op' = o }

  action load = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet g = 1.to(2).oneOf()
    nondet c = 0.to(8).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet how = 0.to(4).oneOf()
    val v = if (c == 8) 0 else scalar(c, p)
    all {
      g1regs' = if (g == 1) g1regs.replaceAt(d, v) else g1regs,
      g2regs' = if (g == 2) g2regs.replaceAt(d, v) else g2regs,
      gtregs' = gtregs,
      op' = okOp("pair.load", [g, d, how], [[v]], []),
    }
  }
  action pairing = {
    nondet d = 0.to(2).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet k = 0.to(1).oneOf()
    val v = fmul(g1regs[i], g2regs[j])
    putT(okOp("pair.pairing", [d, i, j, k], [], [[v, b2i(v == 0)]]), d, v)
  }
  /// several pairings in one evaluation: the product, in one loop or added as separate ones
  action multi = {
    nondet d = 0.to(2).oneOf()
    nondet few = 0.to(NR).oneOf()
    nondet many = 0.to(36).oneOf()
    nondet z = 0.to(2).oneOf()
    nondet s = 0.to(NR - 1).oneOf()
    nondet k = 0.to(1).oneOf()
    val l = if (z == 0) many else few
    val v = range(0, l).foldl(0, (acc, i) => fadd(acc, fmul(g1regs[i % NR], g2regs[(i + s + i / NR) % NR])))
    putT(okOp("pair.multi", [d, l, s, k], [], [[v]]), d, v)
  }
  action target = {
    nondet d = 0.to(2).oneOf()
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    nondet k = 0.to(6).oneOf()
    nondet c = 0.to(7).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet l = 0.to(20).oneOf()
    val s = scalar(c, p)
    val x = gtregs[i]
    val y = gtregs[j]
    val v = if (k == 0) 0 else if (k == 1) fadd(x, y) else if (k == 2) fsub(x, y) else if (k == 3) fneg(x) else if (k == 4) fadd(x, x)
      else if (k == 5) fmul(x, s) else range(0, l).foldl(0, (acc, t) => fadd(acc, gtregs[t % 3]))
    putT(okOp("pair.gt", [d, i, j, k, l], [[s]], [[v]]), d, v)
  }
  action equal = {
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    look(okOp("pair.equal", [i, j], [], [[b2i(gtregs[i] == gtregs[j])]]))
  }
  /// the two-pairing check on present points
  action verify = {
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet k = 0.to(NR - 1).oneOf()
    nondet l = 0.to(NR - 1).oneOf()
    look(okOp("pair.verify", [i, j, k, l], [], [[b2i(fmul(g1regs[i], g2regs[j]) == fmul(g1regs[k], g2regs[l]))]]))
  }
  /// and on points built for it: equal products, products that differ by the sign, by a small factor, and with
  /// points at infinity
  action balanced = {
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet p = 1.to(ORD - 1).oneOf()
    nondet c = 0.to(9).oneOf()
    nondet how = 0.to(24).oneOf()
    val a = g1regs[i]
    val b = g2regs[j]
    val q = fmul(fmul(a, b), finv(p))
    val t =
      if (c <= 3) (p, q)
      else if (c == 4) (fneg(p), q)
      else if (c == 5) (p, fadd(q, 1))
      else if (c == 6) (0, q)
      else if (c == 7) (p, 0)
      else if (c == 8) (0, 0)
      else (fmul(p, X), q)
    look(okOp("pair.balanced", [i, j, how % 5, how / 5], [[t._1], [t._2]], [[b2i(fmul(a, b) == fmul(t._1, t._2))]]))
  }
  action step = {
    nondet kind = 0.to(11).oneOf()
    if (kind <= 2) load
    else if (kind <= 4) pairing
    else if (kind == 5) multi
    else if (kind <= 7) target
    else if (kind == 8) equal
    else if (kind == 9) verify
    else balanced
  }
  val inField = gtregs.foldl(true, (acc, x) => acc and (x >= 0 and x < ORD))
}
