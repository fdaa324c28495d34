/// The operations as generic code reaches them: through the interfaces of fields, groups, curves, encodings and pairings
/// (property C31).
///
/// Registers hold scalars and, by their logarithms, elements of both groups and of the target group.
module genericMachine {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"
  import groupAlg.* from "./groups"

  pure val NR = 4
  var regs: List[int]
  var g1regs: List[int]
  var g2regs: List[int]
  var gtregs: List[int]
  var op: Op

  pure val START = [0, 1, ORD - 1, 7]
  action init = all { regs' = START, g1regs' = START, g2regs' = START, gtregs' = [0, 0, 0], op' = okOp("gen.init", [3], [START], []) }
  action store(o: Op, d: int, v: int): bool = all { regs' = regs.replaceAt(d, v), g1regs' = g1regs, g2regs' = g2regs, gtregs' = gtregs, op' = o }
  action putG(o: Op, g: int, d: int, v: int): bool = all {
    regs' = regs, gtregs' = gtregs, op' = o,
    g1regs' = if (g == 1) g1regs.replaceAt(d, v) else g1regs,
    g2regs' = if (g == 2) g2regs.replaceAt(d, v) else g2regs,
  }
  action putT(o: Op, d: int, v: int): bool = all { regs' = regs, g1regs' = g1regs, g2regs' = g2regs, gtregs' = gtregs.replaceAt(d, v), op' = o }
  action look(o: Op): bool = all { regs' = regs, g1regs' = g1regs, g2regs' = g2regs, gtregs' = gtregs, op' = o }

  /// scalars through the interface of fields
  action fieldOp = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet k = 0.to(17).oneOf()
    nondet c = 0.to(12).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    val x = regs[i]
    val y = regs[j]
    val e = scalar(c, p)
    val n = [d, i, j, k]
    if (k == 4 and x == 0) look(errOp("gen.field", n, [[e]]))
    else {
      val v = if (k == 0) 0 else if (k == 1) 1 else if (k == 2) fsqr(x) else if (k == 3) fadd(x, x) else if (k == 4) finv(x)
        else if (k == 5) vsum(regs) else if (k == 6) fmul(x, fsqr(x)) else if (k == 7) fpow(x, e)
        else if (k == 8) (if (e % 2 == 0) x else y)
        else if (k == 9) 0 else if (k == 10) e % 2^64 else if (k == 11) root32 else if (k == 12) 7 else if (k == 13) e
        else if (k == 14) fadd(fmul(x, y), fneg(fsub(y, e)))
        else if (k == 15) (if (e % 2 == 0) x else fneg(x))
        else if (k == 16) (if (e % 2 == 0) y else x)
        else e
      store(okOp("gen.field", n, [[e]], [[v]]), d, v)
    }
  }
  pure val root32 = fpow(7, (ORD - 1) / 2^32)
  /// a square root exists exactly for squares, and is one of the two
  action squareRoot = {
    nondet i = 0.to(NR - 1).oneOf()
    nondet sq = 0.to(1).oneOf()
    val x = if (sq == 1) fsqr(regs[i]) else regs[i]
    look(if (fIsSquare(x)) okOp("gen.sqrt", [], [[x]], []) else errOp("gen.sqrt", [], [[x]]))
  }
  /// scalars are kept multiplied by 2^256; `reduce` gives the one kept as the integer itself, which can then be shifted
  /// what the interface tells of a scalar: zero, odd, equal to another, its bytes, its words, and these shifted
  action tell = {
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet n = 0.to(300).oneOf()
    val x = regs[i]
    look(okOp("gen.tell", [i, j, n], [], [[b2i(x == 0), x % 2, b2i(x == regs[j])], [x], [fmul(x, RINV)], [fmul(x / 2^n, RINV)]]))
  }
  /// bytes, of integers below the order and above it
  action bytes = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet c = 0.to(12).oneOf()
    nondet t = 0.to(4).oneOf()
    nondet p = 0.to(2^256 - 1).oneOf()
    val b = if (t == 0) ORD + p % 5 else if (t == 1) p else if (t == 2) 2^256 - 1 - p % 7 else scalar(c, p % ORD)
    if (b < ORD) store(okOp("gen.bytes", [d], [[b]], [[b]]), d, b) else look(errOp("gen.bytes", [d], [[b]]))
  }
  action load = {
    nondet g = 1.to(2).oneOf()
    nondet d = 0.to(NR - 1).oneOf()
    nondet c = 0.to(9).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet how = 0.to(4).oneOf()
    val v = scalar(c, p)
    putG(okOp("gen.load", [g, d, how], [[v]], []), g, d, v)
  }
  /// points through the interfaces of groups, curves and encodings
  action groupOp = {
    nondet g = 1.to(2).oneOf()
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet s = 0.to(NR - 1).oneOf()
    nondet k = 0.to(19).oneOf()
    nondet b = 0.to(1).oneOf()
    val l = if (g == 1) g1regs else g2regs
    val x = l[i]
    val y = l[j]
    val v = if (k == 0) 0 else if (k == 1) 1 else if (k == 2) fadd(x, x)
      // selections: of points, of affine points, exchange, assignment, negation
      else if (k <= 4) (if (b == 0) x else y) else if (k == 5) (if (b == 0) y else x) else if (k == 6) (if (b == 0) x else y)
      else if (k == 7) (if (b == 0) x else fneg(x))
      // there and back: affine, encoded in either form
      else if (k <= 13) x
      else if (k == 14) fmul(x, regs[s]) else if (k == 15) vsum(l) else if (k == 16) fsub(fadd(x, y), fneg(x)) else if (k == 17) fadd(x, y)
      else if (k == 18) 0 else fsub(x, y)
    putG(okOp("gen.group", [d, g, i, j, k, b, s], [], [[v, b2i(v == 0), b2i(x == y)]]), g, d, v)
  }
  /// an encoding whose flags were changed is refused
  action flags = {
    nondet g = 1.to(2).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet k = 0.to(3).oneOf()
    look(errOp("gen.flags", [g, i, k], []))
  }
  /// a random element is none of the special ones: a scalar (0), a point (1, 2), an element of the target group (3)
  action random = {
    nondet k = 0.to(3).oneOf()
    nondet p = 1.to(2^60).oneOf()
    look(okOp("gen.random", [k, p], [], []))
  }
  action pairings = {
    nondet d = 0.to(2).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet k = 0.to(3).oneOf()
    val v = fmul(g1regs[i], g2regs[j])
    putT(okOp("gen.pairing", [d, i, j, k], [], [[v]]), d, v)
  }
  action target = {
    nondet d = 0.to(2).oneOf()
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    nondet s = 0.to(NR - 1).oneOf()
    nondet k = 0.to(9).oneOf()
    nondet b = 0.to(1).oneOf()
    val x = gtregs[i]
    val y = gtregs[j]
    val v = if (k == 0) 0 else if (k == 1) 1 else if (k == 2) fadd(x, x) else if (k == 3) (if (b == 0) x else y) else if (k == 4) fmul(x, regs[s])
      else if (k == 5) vsum(gtregs) else if (k == 6) fadd(x, y) else if (k == 7) fsub(x, y) else if (k == 8) 0 else (if (b == 0) y else x)
    putT(okOp("gen.target", [d, i, j, k, b, s], [], [[v, b2i(v == 0), b2i(x == y)]]), d, v)
  }
  action step = {
    nondet kind = 0.to(19).oneOf()
    if (kind <= 4) fieldOp else if (kind == 5) squareRoot else if (kind <= 7) tell else if (kind == 8) bytes else if (kind <= 10) load
    else if (kind <= 15) groupOp else if (kind == 16) flags else if (kind == 17) random else if (kind == 18) pairings else target
  }
  val inField = regs.concat(g1regs).concat(g2regs).concat(gtregs).foldl(true, (acc, x) => acc and (x >= 0 and x < ORD))
}
