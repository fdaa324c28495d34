/// The scalar field of BLS12-381 as a machine with registers (properties C01 and C02).
///
/// The abstract state is a register file of integers modulo the group order.  Every action is one call of
/// the library on registers; the driver keeps the real scalars in real registers, so that operands are the
/// outcome of earlier calls, and compares the whole register file after every step.
module blsfr {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"

  pure val R = 2^256 % ORD
  pure val RINV = finv(R)
  pure val W64 = 2^64
  /// words that make carries and borrows propagate or stop
  pure val WORDS = [0, 1, 2, 2^32 - 1, 2^32, 2^63 - 1, 2^63, 2^64 - 2, 2^64 - 1,
    0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0xffffffff00000000, 0x53bda402fffe5bff]
  pure val TOPS = [0, 1, 2^32 - 1, 2^62, 0x73eda753299d7d47, 0x73eda753299d7d48]
  pure def words4(a: int, b: int, c: int, d: int): int = a + W64 * (b + W64 * (c + W64 * d))

  pure val SPECIALS = [0, 1, 2, 3, 5, 7, 2^32, 2^64 - 1, 2^64, 2^128 - 1, 2^192, 2^254,
    ORD - 1, ORD - 2, (ORD - 1) / 2, (ORD + 1) / 2, R, fmul(R, R), RINV, fneg(RINV), fneg(R),
    fpow(5, (ORD - 1) / 4), fpow(5, (ORD - 1) / 4294967296), 2^64 + 1, ORD - 2^64]

  /// an element by class: 0 boundary value, 1 boundary limb pattern of the internal representation,
  /// 2 small, 3 any
  pure def element(cls: int, p: int): int =
    if (cls == 0) SPECIALS[p % SPECIALS.length()]
    else if (cls == 1) {
      val m = words4(WORDS[p % 14], WORDS[(p / 14) % 14], WORDS[(p / 196) % 14], TOPS[(p / 2744) % 6])
      fmul(m % ORD, RINV)
    }
    else if (cls == 2) p % 1000
    else p % ORD
}

module frArith {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"

  pure val NR = 6
  var regs: List[int]
  var op: Op

  action init = all {
    regs' = [0, 1, 2, ORD - 1, R, 5],
    op' = { name: "fr.init", n: [], a: [[0, 1, 2, ORD - 1, R, 5]], r: [], ok: "ok" },
  }

  /// the call writes v to register d
  action putReg(o: Op, d: int, v: int): bool = all { regs' = regs.replaceAt(d, v), op' = o }
  action look(o: Op): bool = all { regs' = regs, op' = o }

  action load = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    putReg(okOp("fr.load", [d], [[element(c, p)]], []), d, element(c, p))
  }
  action bin = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet k = 0.to(3).oneOf()
    val x = regs[i]
    val y = regs[j]
    val nm = if (k == 0) "fr.add" else if (k == 1) "fr.sub" else if (k == 2) "fr.mul" else "fr.div"
    val v = if (k == 0) fadd(x, y) else if (k == 1) fsub(x, y) else if (k == 2) fmul(x, y) else fdiv(x, y)
    putReg(okOp(nm, [d, i, j], [], [[v]]), d, v)
  }
  action una = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet k = 0.to(2).oneOf()
    val x = regs[i]
    val nm = if (k == 0) "fr.neg" else if (k == 1) "fr.dbl" else "fr.sqr"
    val v = if (k == 0) fneg(x) else if (k == 1) fadd(x, x) else fsqr(x)
    putReg(okOp(nm, [d, i], [], [[v]]), d, v)
  }
  /// operands built so that sum, difference or product meets a given boundary value exactly
  action aim = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet c = 0.to(1).oneOf()
    nondet p = 0.to(ORD - 1).oneOf()
    nondet k = 0.to(2).oneOf()
    val t = element(c, p)
    val x = regs[i]
    val y = if (k == 0) fsub(t, x) else if (k == 1) fsub(x, t) else fdiv(t, x)
    val v = if (k == 0) fadd(x, y) else if (k == 1) fsub(x, y) else fmul(x, y)
    putReg(okOp(if (k == 0) "fr.addv" else if (k == 1) "fr.subv" else "fr.mulv", [d, i], [[y]], [[v]]), d, v)
  }
  action inv = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet k = 0.to(1).oneOf()
    val nm = if (k == 0) "fr.inverse" else "fr.eucl_inverse"
    if (regs[i] == 0) look(refOp(nm, [d, i], []))
    else putReg(okOp(nm, [d, i], [], [[finv(regs[i])]]), d, finv(regs[i]))
  }
  action pow = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet q = 0.to(2^64 - 1).oneOf()
    nondet b = 0.to(63).oneOf()
    val e = if (c == 0) q % 10 else if (c == 1) 2^b else if (c == 2) 2^64 - 1 - q % 4 else q
    val v = fpow(regs[i], e)
    putReg(okOp("fr.pow", [d, i], [[e]], [[v]]), d, v)
  }
  action powBig = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet q = 0.to(2^256 - 1).oneOf()
    nondet k = 0.to(1).oneOf()
    val e = if (c == 0) ORD - 2 else if (c == 1) ORD - 1 else if (c == 2) 2^256 - 1 else q
    val v = fpow(regs[i], e)
    putReg(okOp(if (k == 0) "fr.pow4" else "fr.pow4v", [d, i], [[e]], [[v]]), d, v)
  }
  /// a square root exists exactly for squares; which of the two roots is returned is not specified
  action sqrt = {
    nondet i = 0.to(NR - 1).oneOf()
    if (fIsSquare(regs[i])) look(okOp("fr.sqrt", [i], [], [[regs[i]]]))
    else look(errOp("fr.sqrt", [i], []))
  }
  action sqrtOfSquare = {
    nondet i = 0.to(NR - 1).oneOf()
    look(okOp("fr.sqrtsq", [i], [], [[regs[i], fneg(regs[i])]]))
  }
  action tests = {
    nondet i = 0.to(NR - 1).oneOf()
    look(okOp("fr.tests", [i], [], [[b2i(regs[i] == 0), b2i(regs[i] == 1), 0]]))
  }
  action equals = {
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    look(okOp("fr.equals", [i, j], [], [[b2i(regs[i] == regs[j])]]))
  }
  /// the same value reached on another way is equal
  action detour = {
    nondet d = 0.to(NR - 1).oneOf()
    nondet i = 0.to(NR - 1).oneOf()
    nondet j = 0.to(NR - 1).oneOf()
    nondet k = 0.to(2).oneOf()
    val v = if (k == 2 and regs[j] == 0) 0 else regs[i]
    putReg(okOp("fr.detour", [d, i, j, k], [], [[v], [b2i(v == regs[i])]]), d, v)
  }
  action step = {
    nondet kind = 0.to(15).oneOf()
    if (kind <= 2) load
    else if (kind <= 6) bin
    else if (kind == 7) una
    else if (kind <= 9) aim
    else if (kind == 10) inv
    else if (kind == 11) pow
    else if (kind == 12) { nondet z = 0.to(2).oneOf()
      if (z == 0) powBig else if (z == 1) sqrt else sqrtOfSquare }
    else if (kind == 13) tests
    else if (kind == 14) equals
    else detour
  }

  /// the abstract registers stay in the field
  val inField = regs.foldl(true, (acc, x) => acc and (x >= 0 and x < ORD))
}

module frCodec {
  import prims.* from "./prims"
  import field(Q = 52435875175126190479447740508185965837690552500527637822603658699938581184513).* from "./prims"
  import blsfr.* from "./fr"

  var regs: List[int]
  var op: Op

  action init = all { regs' = [0], op' = { name: "fr.init", n: [], a: [[0]], r: [], ok: "ok" } }
  action putReg(o: Op, v: int): bool = all { regs' = [v], op' = o }
  action look(o: Op): bool = all { regs' = regs, op' = o }

  /// 256-bit integers around the places where reduction and range tests decide
  pure def pick256(c: int, p: int): int =
    if (c == 0) (ORD + p % 9 - 4)
    else if (c == 1) ((p % 3) * ORD + p % 7 + (if (p % 3 == 0) 0 else -3)) % 2^256
    else if (c == 2) 2^256 - 1 - p % 5
    else if (c == 3) words4(WORDS[p % 14], WORDS[(p / 14) % 14], WORDS[(p / 196) % 14], WORDS[(p / 2744) % 14])
    else if (c == 4) words4(WORDS[p % 14], WORDS[(p / 14) % 14], 0x3339d80809a1d805, 0x73eda753299d7d48)
    // only one word differs from the order
    else if (c == 5) (ORD + 2^256 - 1 - 2^(p % 256)) % 2^256
    else if (c == 6) (ORD + 2^(p % 256)) % 2^256
    else if (c == 7) p % 2^64
    else if (c == 8) element(p % 4, p / 4)
    else p % 2^256

  action fromBytes = {
    nondet c = 0.to(9).oneOf()
    nondet p = 0.to(2^256 - 1).oneOf()
    val v = pick256(c, p)
    if (v < ORD) putReg(okOp("fr.frombytes", [], [[v]], [[v]]), v)
    else look(errOp("fr.frombytes", [], [[v]]))
  }
  action fromWords = {
    nondet c = 0.to(9).oneOf()
    nondet p = 0.to(2^256 - 1).oneOf()
    val v = pick256(c, p)
    putReg(okOp("fr.fromwords", [], [[v]], [[v % ORD]]), v % ORD)
  }
  action fromWord = {
    nondet c = 0.to(1).oneOf()
    nondet p = 0.to(2^64 - 1).oneOf()
    val v = if (c == 0) p else WORDS[p % 14]
    putReg(okOp("fr.fromword", [], [[v]], [[v]]), v)
  }
  action fromWide = {
    nondet c = 0.to(9).oneOf()
    nondet d = 0.to(9).oneOf()
    nondet p = 0.to(2^256 - 1).oneOf()
    nondet q = 0.to(2^256 - 1).oneOf()
    val v = pick256(c, p) + 2^256 * pick256(d, q)
    putReg(okOp("fr.fromwide", [], [[v]], [[v % ORD]]), v % ORD)
  }
  /// write and read back, all formats
  action roundtrip = look(okOp("fr.roundtrip", [0], [], [[regs[0]]]))
  action tests = look(okOp("fr.tests", [0], [], [[b2i(regs[0] == 0), b2i(regs[0] == 1), 0]]))
  action nulls = look(okOp("fr.null", [], [], [[1]]))
  /// random scalars are canonical
  action rand = look(okOp("fr.rand", [], [], []))
  action step = {
    nondet kind = 0.to(11).oneOf()
    if (kind <= 3) fromBytes
    else if (kind <= 5) fromWords
    else if (kind == 6) fromWord
    else if (kind <= 8) fromWide
    else if (kind == 9) roundtrip
    else if (kind == 10) tests
    else { nondet z = 0.to(1).oneOf()
           if (z == 0) nulls else rand }
  }
  val inField = regs.foldl(true, (acc, x) => acc and (x >= 0 and x < ORD))
}
