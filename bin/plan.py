"""Which machines and models decide which property, and how much of them a run explores.

A machine entry: spec file, main module, invariant, and per tier (quint processes, traces per process, steps).
"""
LIMIT = 800       # seconds, for one tool
OP_LIMIT = 120    # seconds, for one call of the library

ASSUMPTIONS = [
    "group elements are identified with their discrete logarithms; the point with a given logarithm is taken from the crate bls12_381 0.6.0",
    "arithmetic of the specification is that of Quint's unbounded integers",
]


def m(spec, main, inv, quick, thorough, **kw):
    return dict(spec=spec, main=main, inv=inv, quick=quick, thorough=thorough, **kw)


def every(step, total, quick=True):
    """Small instances, all of them: in one run if they are few, in eight runs otherwise."""
    if total <= 1500:
        return [m("small.qnt", "smallMachine", "inField", (1, 1, total), (1, 1, total), init="whole", step=step)]
    n = -(-total // 8)
    return [m("small.qnt", "smallMachine", "inField", (int(quick), 1, n), (1, 1, n), init="part%d" % i, step=step) for i in range(8)]


def piece(step, quick, thorough):
    """Small instances with other letters, or a piece of those that are too many."""
    return [m("small.qnt", "smallMachine", "inField", quick, thorough, init="piece", step=step)]


def tlc(main, **kw):
    return dict(main=main, **kw)


RACE = ("in the parallel build the tables of powers kept by recovery are grown without synchronisation, so that concurrent first "
        "recoveries can crash, hang or return wrong data (K7)")

NOTES = ("The specifications are in spec/ (Quint). bin/check.py generates traces of a property's machines with seeds derived from "
         "VERIF_SEED, checks their invariants, model checks its design models with TLC, rebuilds the library from /repo and replays "
         "every trace into it. See DESIGN.md.")

NOT_APPLICABLE = {
    "C30": "Only the zkcrypto backend can be built in this sandbox: the other backends need the git dependency blst or native "
           "libraries, so no trace can be replayed into them and nothing would bind a specification to their code.",
}

PLAN = {
    "C01": dict(machines=[m("fr.qnt", "frArith", "inField", (8, 96, 300), (32, 96, 400))],
                models=[tlc(x) for x in ("WordsAll", "WordsEdge", "RootsAll", "RootsDeep")] + [tlc("WordsTight", expect="broken")],
                must=["fr.add", "fr.sub", "fr.mul", "fr.div", "fr.neg", "fr.dbl", "fr.sqr", "fr.inverse", "fr.eucl_inverse", "fr.pow",
                      "fr.pow4", "fr.pow4v", "fr.sqrt", "fr.sqrtsq", "fr.tests", "fr.equals", "fr.detour"], level="exploration",
                note="random walks of a register machine over integers modulo the group order, replayed call by call"),
    "C02": dict(machines=[m("fr.qnt", "frCodec", "inField", (8, 96, 300), (32, 96, 400))],
                must=["fr.frombytes", "fr.fromwords", "fr.fromword", "fr.fromwide", "fr.roundtrip", "fr.null", "fr.rand"], level="exploration",
                note="random walks over encodings around every range boundary, replayed call by call"),
    "C03": dict(machines=[m("tower.qnt", "towerMachine", "inv", (8, 64, 400), (32, 64, 500), variant="curve")],
                tests=[dict(spec="tower.qnt", main="towerTest")],
                must=["tower." + x for x in ("add sub mul addto subto multo with neg square frobenius conjugate invert equal near embed nonresidue "
                                             "by1 by01 by014 pow sqrt sqrtsq larger decode tests zero one").split()], level="exploration",
                note="random walks of a register machine over the base field and its extensions, all operations schoolbook, replayed call by call"),
    "C04": dict(machines=[m("groups.qnt", "groupMachine", "inField", (8, 120, 250), (32, 120, 400), init="init1", variant="curve")],
                models=[tlc(x) for x in ("GlvRight", "GlvWide")] + [tlc("GlvLost", expect="broken")],
                must=["g." + x for x in "load add sub meet una times const sum batch tests equal rand".split()], level="exploration",
                note="random walks of a register machine on discrete logarithms, replayed call by call; coordinates compared after every step"),
    "C05": dict(machines=[m("groups.qnt", "groupMachine", "inField", (8, 32, 250), (32, 32, 400), init="init2", variant="curve")],
                must=["g." + x for x in "load add sub meet una times const sum batch tests equal".split()], level="exploration",
                note="random walks of a register machine on discrete logarithms, replayed call by call; coordinates compared after every step"),
    "C06": dict(machines=[m("codec.qnt", "codecMachine", "canonical", (8, 6, 200), (32, 6, 300), variant="curve")],
                tests=[dict(spec="codec.qnt", main="codecTest")],
                must=["enc.decode", "enc.unchecked", "enc.tests", "enc.encode"], level="exploration",
                note="valid, mutated and malformed strings; acceptance specified by coordinate arithmetic including the subgroup test"),
    "C07": dict(machines=[m("groups.qnt", "pairingMachine", "inField", (8, 36, 200), (32, 36, 400), variant="curve")],
                must=["pair." + x for x in "load pairing multi gt equal verify balanced".split()], level="exploration",
                note="random walks on discrete logarithms; pairings and target-group elements compared with the reference, verdicts with the equation"),
    "C10": dict(machines=[m("fft.qnt", "fsMachine", "order", (4, 24, 40), (16, 24, 60)),
                          m("fft.qnt", "fsMachine", "order", (1, 1, 4), (4, 2, 6), step="stepHuge")],
                must=["fs.new", "fs.table", "fs.expand"], level="exploration",
                note="settings of every scale against the powers of 7^((q-1)/2^k), orders checked in the specification"),
    "C11": dict(machines=[m("fft.qnt", "fftMachine", "inv", (6, 24, 60), (24, 24, 80)),
                          m("fft.qnt", "fftMachine", "inv", (2, 1, 16), (12, 3, 30), step="stepBig"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 40), (8, 4, 40), step="transforms"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 20), (8, 4, 20), step="transformsHuge"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 60), (8, 4, 80), step="transformsFar")]
                + every("transforms", 6654) + piece("transforms", (2, 2, 800), (8, 2, 6654)),
                models=[tlc(x) for x in ("FftAll", "FftOrder")],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of the butterflies checked with TLC",
                must=["fft.each", "large.fft", "fft.fwd", "fft.inv", "fft.roundtrip", "fft.slow", "fft.bad", "fft.sparse", "fft.geo"],
                note="random walks over transforms of a scalar vector, the transform specified as the defining sum or a closed form"),
    "C12": dict(machines=[m("fft.qnt", "fftG1Machine", "inField", (8, 12, 30), (24, 12, 40)),
                          m("large.qnt", "largeMachine", "agrees", (4, 2, 30), (16, 4, 30), step="groupTransforms"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 30), (8, 2, 40), step="groupTransformsFar")]
                + every("groupTransforms", 6654) + piece("groupTransforms", (4, 2, 60), (8, 2, 1000)),
                must=["fft.g1each", "large.g1fft", "fft.g1fwd", "fft.g1inv", "fft.g1slow", "fft.g1bad"], level="exploration",
                note="random walks over transforms of group elements, specified on their discrete logarithms"),
    "C13": dict(machines=[m("poly.qnt", "polyMachine", "inv", (8, 48, 100), (24, 48, 200), step="stepEval"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 60), (8, 4, 60), step="evaluations")]
                + every("evals", 2912) + piece("evals", (2, 4, 800), (4, 4, 2912)),
                level="exploration", note="random polynomials and points, value specified as the sum of coefficient times power"),
    "C14": dict(machines=[m("poly.qnt", "polyMachine", "inv", (8, 24, 40), (24, 24, 60), step="stepMul"),
                          m("large.qnt", "largeMachine", "agrees", (4, 2, 60), (16, 4, 60), step="products")]
                + every("products", 14400) + piece("products", (4, 1, 1500), (8, 2, 7200)),
                must=["poly.muleach", "large.mul", "poly.mulnew"], level="exploration", note="random products around every length threshold, specified as the convolution"),
    "C15": dict(machines=[m("poly.qnt", "polyMachine", "inv", (8, 36, 40), (24, 36, 60), step="stepDiv"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 40), (8, 4, 40), step="quotients")]
                + every("quotients", 14196) + piece("quotients", (4, 1, 1500), (8, 2, 7200)),
                models=[tlc("DivisionAll")],
                must=["large.div", "poly.diveach", "poly.divlarge"], level="exploration", note="random divisions around every length threshold, specified by Euclidean division"),
    "C16": dict(machines=[m("poly.qnt", "polyMachine", "inv", (8, 36, 40), (24, 36, 60), step="stepInv"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 60), (8, 4, 60), step="inverses")]
                + every("inverses", 1092) + piece("inverses", (2, 4, 500), (4, 4, 1092)),
                models=[tlc("DivisionLong")],
                must=["large.inv", "poly.inveach", "poly.invnew"], level="exploration", note="random power-series inversions, specified by the recurrence and checked by multiplication"),
    "C21": dict(machines=[m("fft.qnt", "dasMachine", "inField", (8, 16, 40), (24, 16, 60)),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 40), (8, 4, 40), step="extensions"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 16), (8, 2, 20), step="extensionsHuge"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 60), (8, 4, 80), step="extensionsFar")]
                + every("extensions", 6654) + piece("extensions", (2, 2, 800), (8, 2, 6654)),
                models=[tlc(x) for x in ("DasAll", "DasOrder")],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of the butterflies checked with TLC",
                must=["das.new", "large.das", "das.ext", "das.halves", "das.bad"],
                note="random walks over extensions, specified through the interpolating polynomial or a closed form"),
    "C22": dict(machines=[m("erasure.qnt", "zeroMachine", "vanishes", (8, 4, 40), (24, 8, 60)),
                          m("erasure.qnt", "zeroMachine", "vanishes", (4, 2, 12), (16, 4, 20), step="stepTree"),
                          m("erasure.qnt", "zeroMachine", "vanishes", (4, 1, 1), (12, 1, 4), step="almostAllHuge"),
                          m("large.qnt", "largeMachine", "agrees", (4, 2, 80), (16, 4, 80), step="zeros"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 24), (8, 4, 24), step="zerosHuge"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 40), (8, 2, 60), step="zerosFar")]
                + every("zeros", 552) + every("zeros16", 65536, quick=False) + piece("zeros16", (4, 1, 1500), (0, 1, 1)),
                models=[tlc(x) for x in ("ZeroTreeRight", "ZeroTreeRepaired")] + [tlc("ZeroTreeRefused", expect="broken")],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of the tree of partial products checked with TLC",
                must=["zero.poly", "large.zero", "zero.partial", "zero.reduce"],
                note="random, structured and nearly complete sets of positions, specified as the product of linear factors"),
    "C23": dict(machines=[m("erasure.qnt", "recoverMachine", "determined", (8, 8, 60), (24, 12, 80)),
                          m("erasure.qnt", "recoverMachine", "determined", (4, 4, 30), (16, 4, 50), step="stepLarge"),
                          m("large.qnt", "largeMachine", "agrees", (4, 2, 60), (16, 4, 60), step="recoveries"),
                          m("large.qnt", "largeMachine", "agrees", (2, 2, 20), (8, 4, 20), step="recoveriesHuge"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 40), (8, 2, 60), step="recoveriesFar")]
                + every("losses", 544) + every("losses8", 65536, quick=False) + piece("losses8", (4, 1, 1500), (8, 1, 4096))
                + every("losses16", 65536, quick=False) + piece("losses16", (4, 1, 600), (0, 1, 1)),
                models=[tlc(x) for x in ("RecoverAll", "RecoverLoss")],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of the steps of recovery checked with TLC",
                must=["rec.new", "large.recover", "rec.encode", "rec.lose", "rec.recover", "rec.bad"],
                note="random walks over encoding, losing samples and recovering; the codeword is the abstract state"),
    "C08": dict(machines=[m("kzg.qnt", "setupMachine", "exact", (8, 6, 40), (24, 10, 60)),
                          m("large.qnt", "largeMachine", "agrees", (4, 1, 6), (16, 2, 10), step="setups"),
                          m("large.qnt", "largeMachine", "agrees", (4, 1, 1), (8, 1, 4), step="setupsHuge")],
                must=["large.setup", "kzg.setup", "kzg.generate", "kzg.monomial", "kzg.domain", "kzg.checkmx"], level="exploration",
                note="random setups, every point compared with the power of the secret, then used through the settings"),
    "C09": dict(machines=[m("kzg.qnt", "commitMachine", "inField", (8, 18, 50), (24, 18, 80)),
                          m("large.qnt", "largeMachine", "agrees", (4, 2, 40), (16, 4, 40), step="combinations")]
                + every("combinations", 1884) + piece("combinations", (2, 1, 400), (4, 2, 1884)),
                models=[tlc(x) for x in ("MsmPairs", "MsmWindows")],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of windows and buckets checked with TLC",
                must=["kzg.points", "large.commit", "kzg.commit", "kzg.linear"],
                note="random polynomials, points and scalars; the commitment specified as the value at the secret"),
    "C17": dict(machines=[m("kzg.qnt", "kzgMachine", "inv", (8, 36, 60), (24, 36, 80), step="step17"),
                          m("large.qnt", "largeMachine", "agrees", (4, 1, 40), (16, 2, 40), step="openings1")]
                + every("openings", 960) + piece("openings", (4, 2, 60), (8, 2, 960)),
                must=["large.open", "kzg.whole", "kzg.open", "kzg.prove", "kzg.check"], level="exploration",
                note="random polynomials, points and setups; proof specified as the value of the quotient at the secret"),
    "C18": dict(machines=[m("kzg.qnt", "kzgMachine", "inv", (8, 36, 80), (24, 36, 120), step="step18"),
                          m("large.qnt", "largeMachine", "agrees", (4, 1, 40), (16, 2, 40), step="openings1")]
                + every("verdicts", 1200) + piece("verdicts", (4, 2, 100), (8, 2, 1200)),
                models=[tlc(x) for x in ("KzgClaims",)],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of claims and verdicts checked with TLC",
                must=["large.open", "kzg.checkx", "kzg.check", "kzg.open"],
                note="random valid and invalid verifications; verdict specified by the equation in the exponent"),
    "C19": dict(machines=[m("kzg.qnt", "kzgMachine", "inv", (8, 24, 60), (24, 24, 80), step="step19"),
                          m("kzg.qnt", "kzgMachine", "inv", (2, 3, 20), (8, 3, 30), step="step19big"),
                          m("large.qnt", "largeMachine", "agrees", (4, 1, 40), (16, 2, 40), step="openingsN")]
                + every("cosetOpenings", 2880) + piece("cosetOpenings", (4, 2, 60), (8, 2, 1440)),
                must=["large.open", "kzg.whole", "kzg.open", "kzg.provem", "kzg.checkm"], level="exploration",
                note="random polynomials, cosets and setups; proof specified as the value of the quotient at the secret"),
    "C20": dict(machines=[m("kzg.qnt", "kzgMachine", "inv", (8, 48, 80), (24, 48, 120), step="step20"),
                          m("large.qnt", "largeMachine", "agrees", (4, 1, 40), (16, 2, 40), step="openingsN")]
                + every("cosetVerdicts", 2520) + piece("cosetVerdicts4", (4, 2, 100), (8, 2, 2200)),
                models=[tlc(x) for x in ("KzgClaims",)],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of claims and verdicts checked with TLC",
                must=["large.open", "kzg.checkmx", "kzg.checkm", "kzg.open"],
                note="random valid and invalid coset verifications; verdict specified by the equation in the exponent"),
    "C24": dict(machines=[m("fk20.qnt", "fkMachine", "verifies", (8, 12, 30), (24, 12, 50), step="step1"),
                          m("fk20.qnt", "fkMachine", "verifies", (2, 1, 5), (8, 2, 8), step="stepBig1"),
                          m("large.qnt", "largeMachine", "agrees", (4, 1, 3), (12, 1, 8), step="proofs1"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 16), (8, 2, 20), step="proofsFar1")]
                + every("proofs", 186) + piece("proofs8", (4, 2, 30), (8, 2, 400)),
                models=[tlc(x) for x in ("Fk20Right", "Fk20Eight")] + [tlc("Fk20Short", expect="broken")],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of the Toeplitz products checked with TLC",
                must=["fk.once", "large.fk", "fk.all", "fk.new", "fk.setup"],
                note="random polynomials and settings; every proof specified on its own as the opening at its point"),
    "C25": dict(machines=[m("fk20.qnt", "fkMachine", "verifies", (8, 12, 30), (24, 12, 50), step="stepN"),
                          m("fk20.qnt", "fkMachine", "verifies", (2, 1, 5), (8, 2, 8), step="stepBigN"),
                          m("large.qnt", "largeMachine", "agrees", (4, 1, 4), (12, 1, 8), step="proofsN"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 16), (8, 2, 20), step="proofsFarN")]
                + every("chunkProofs", 558) + piece("chunkProofs8", (4, 2, 40), (8, 2, 400)),
                models=[tlc(x) for x in ("Fk20Right", "Fk20Eight")] + [tlc("Fk20Short", expect="broken")],
                technique="Quint machine, random and enumerated traces replayed into the library; TLA+ model of the Toeplitz products checked with TLC",
                must=["fk.once", "large.fk", "fk.all", "fk.new", "fk.setup", "fk.zerochunk"],
                note="random polynomials, chunk lengths and settings; every proof specified on its own as the coset opening"),
    "C26": dict(machines=[m("session.qnt", "sessionMachine", "inField", (8, 9, 150), (24, 9, 250))],
                must=["flow.start", "flow.call", "flow.again", "flow.edit", "flow.storm", "flow.refused", "flow.audit"], level="exploration",
                note="random sessions on shared objects: calls repeated later, with cloned and with rebuilt settings, after refused calls; "
                     "operands, settings and earlier results re-read"),
    "C27": dict(machines=[m("fft.qnt", "fftMachine", "inv", (2, 2, 40), (8, 8, 60), variant="parallel"),
                          m("fft.qnt", "fftMachine", "inv", (2, 1, 16), (8, 3, 30), step="stepBig", variant="parallel"),
                          m("fft.qnt", "fftG1Machine", "inField", (2, 2, 20), (6, 4, 30), variant="parallel"),
                          m("fft.qnt", "dasMachine", "inField", (2, 3, 40), (8, 8, 60), variant="parallel"),
                          m("poly.qnt", "polyMachine", "inv", (2, 2, 40), (8, 8, 60), step="stepMul", variant="parallel"),
                          m("poly.qnt", "polyMachine", "inv", (2, 2, 20), (8, 4, 40), step="stepLarge", variant="parallel"),
                          m("erasure.qnt", "zeroMachine", "vanishes", (2, 2, 12), (8, 4, 20), step="stepTree", variant="parallel"),
                          m("erasure.qnt", "recoverMachine", "determined", (2, 4, 40), (8, 8, 60), variant="parallel"),
                          m("erasure.qnt", "recoverMachine", "determined", (4, 2, 20), (8, 4, 50), step="stepLarge", variant="parallel"),
                          m("kzg.qnt", "commitMachine", "inField", (2, 2, 40), (8, 6, 60), variant="parallel"),
                          m("kzg.qnt", "kzgMachine", "inv", (2, 2, 40), (8, 6, 60), step="step19", variant="parallel"),
                          m("fk20.qnt", "fkMachine", "verifies", (2, 2, 20), (8, 4, 40), step="stepN", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 16), (8, 2, 40), step="transforms", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 12), (8, 2, 30), step="groupTransforms", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 16), (8, 2, 40), step="extensions", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 30), (8, 2, 60), step="products", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (1, 2, 20), (8, 2, 40), step="quotients", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (1, 2, 30), (8, 2, 60), step="inverses", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 30), (8, 2, 80), step="zeros", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 24), (8, 2, 60), step="recoveries", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 16), (8, 2, 40), step="combinations", variant="parallel"),
                          m("large.qnt", "largeMachine", "agrees", (2, 1, 1), (8, 1, 6), step="proofs1", variant="parallel"),
                          m("session.qnt", "flowMachine", "cheap", (1, 2, 40), (4, 4, 80), variant="parallel"),
                          m("session.qnt", "sessionMachine", "inField", (1, 2, 100), (4, 4, 200), variant="parallel"),
                          m("session.qnt", "sessionMachine", "inField", (3, 1, 70), (8, 2, 150), step="stepStorm", variant="parallel")],
                models=[tlc(x) for x in ("CacheAlone", "CacheWarm", "CacheLocked", "FftOrder", "DasOrder", "MsmWindows")] + [tlc("CacheCold", expect="broken")],
                technique="Quint machines replayed into the parallel build by several callers; TLA+ models of the shared tables and of the divided work checked with TLC",
                repeat=dict(quick=2, thorough=4), race=dict(main="recoverMachine", rounds=2, text=RACE),
                must=["fft.fwd", "das.ext", "poly.mulnew", "zero.poly", "rec.recover", "kzg.commit", "fk.all", "flow.call", "flow.storm", "flow.recover"],
                note="the same traces replayed into the parallel build, by one caller and by eight at once; the shared tables of recovery "
                     "and the work divided between threads model checked under all interleavings"),
    "C28": dict(machines=[m("session.qnt", "limitsMachine", "inField", (8, 16, 200), (24, 16, 300))]
                + every("lengths", 735) + every("settings", 1156) + every("counts", 63),
                must=["kzg.provenew", "kzg.start", "kzg.use", "fs.new", "fs.table", "fs.expand", "fft.bad", "fft.sparse", "fft.g1bad", "fft.g1new",
                      "das.bad", "das.new", "zero.poly", "zero.reduce", "zero.partial", "rec.bad", "rec.new", "kzg.commit", "kzg.generate",
                      "kzg.checkmx", "fk.new", "fk.once", "fk.zerochunk", "poly.divnew", "poly.invnew"], level="exploration",
                note="calls at and just beyond every limit, in sequence on one set of settings, which are used again after every refusal"),
    "C29": dict(machines=[m("session.qnt", "flowMachine", "cheap", (8, 6, 80), (24, 8, 120)),
                          m("session.qnt", "flowMachine", "cheap", (4, 1, 12), (12, 2, 20), step="stepBig")],
                must=["flow." + x for x in "begin check checkall alter swap forge lose resend recover".split()], level="exploration",
                note="random flows: extend, commit, prove, alter, swap, forge, lose, resend and recover samples"),
    "C31": dict(machines=[m("generic.qnt", "genericMachine", "inField", (8, 24, 250), (32, 24, 400), variant="generic"),
                          m("codec.qnt", "codecMachine", "canonical", (4, 2, 120), (16, 6, 200), variant="generic")],
                must=["gen." + x for x in "field sqrt tell bytes load group flags random pairing target".split()]
                + ["enc.decode", "enc.unchecked", "enc.tests", "enc.encode"], level="exploration",
                note="random walks of a register machine over scalars and discrete logarithms, replayed by code that is generic over the interfaces"),
    "C32": dict(machines=[m("helpers.qnt", "toeplitzMachine", "inv", (8, 12, 60), (32, 12, 100), variant="parts")],
                must=["toe." + x for x in "steps column opening reverse strided".split()], level="exploration",
                note="random columns, vectors, strides and offsets; products specified as sums, each step compared"),
    "C33": dict(machines=[m("helpers.qnt", "helperMachine", "inv", (8, 24, 300), (32, 24, 400), variant="parts"),
                          m("large.qnt", "largeMachine", "agrees", (4, 2, 80), (16, 4, 80), step="helpers", variant="parts")],
                must=["help." + x for x in "load norm pad length linear scale mul new set sizes long".split()], level="exploration",
                note="random walks of a register machine over polynomials, and sizes about powers of two, replayed call by call"),
}
