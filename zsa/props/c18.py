from .lib import *

RULE = ("transpose, determinant, inverse, adjugate, inverseTranspose and adjugateTranspose of 2x2, 3x3 and 4x4 matrices are extracted as rational "
        "expressions over the elements and compared, as identities, with the Leibniz determinant and the cofactor matrix; in addition inverse(m)*m, "
        "m*inverse(m), adjugate(m)*m and transposition laws are decided on the composed call trees. The only divisor allowed is the determinant.")
ASSUME = ["float terms are compared as real-number expressions", "inverse is compared for invertible matrices"]
FLOOR = 30


def obligations():
    obs = []
    for n in NS:
        m = MAT[n]
        A = [("m", m)]
        inv = lambda m: [[x / det(m) for x in c] for c in adj(m)]
        obs += [
            Ob(m + ".transpose", A, m, "zcm::transpose(m)", lambda m: transposem(m)),
            Ob(m + ".transpose2", A, m, "zcm::transpose(zcm::transpose(m))", lambda m: m),
            Ob(m + ".det", A, "float", "zcm::determinant(m)", lambda m: det(m)),
            Ob(m + ".det.transpose", A, "float", "zcm::determinant(zcm::transpose(m))", lambda m: det(m)),
            Ob(m + ".inverse", A, m, "zcm::inverse(m)", inv),
            Ob(m + ".inverse.left", A, m, "zcm::inverse(m) * m", lambda m: ident(len(m)), divcheck=False),
            Ob(m + ".inverse.right", A, m, "m * zcm::inverse(m)", lambda m: ident(len(m)), divcheck=False),
            Ob(m + ".adjugate", A, m, "zcm::adjugate(m)", lambda m: adj(m)),
            Ob(m + ".adjugate.left", A, m, "zcm::adjugate(m) * m", lambda m: [[det(m) if i == j else 0 for i in range(len(m))] for j in range(len(m))]),
            Ob(m + ".inverseTranspose", A, m, "zcm::inverseTranspose(m)", lambda m: transposem(inv(m))),
            Ob(m + ".adjugateTranspose", A, m, "zcm::adjugateTranspose(m)", lambda m: transposem(adj(m))),
        ]
    return obs
