"""What each check runs: (flavour, workers, seconds at most, guided operations per worker)."""

Q = 300_000
T = 12_000_000


def std(ops=Q, secs=40, tsecs=240, need=1000):
    return {"quick": [("cov", 8, secs, ops)], "thorough": [("cov", 8, tsecs, T)], "need": need}


PLAN = {i: std() for i in range(1, 31)}
PLAN[1] = {
    "quick": [("cov", 8, 40, Q), ("release", 8, 20, Q)],
    "thorough": [("cov", 8, 240, T), ("release", 8, 120, T), ("asan", 8, 120, T)],
}
PLAN[2] = {
    "quick": [("cov", 8, 40, Q), ("full", 8, 25, 100_000)],
    "thorough": [("cov", 8, 240, T), ("full", 8, 200, T)],
}
PLAN[3] = {
    "quick": [("cov", 8, 30, Q), ("asan", 8, 30, 30_000)],
    "thorough": [("cov", 8, 200, T), ("asan", 8, 200, T), ("miri", 8, 240, T)],
}
PLAN[24] = {
    "quick": [("cov", 8, 70, 20_000), ("tsan", 4, 30, 1500)],
    "thorough": [("cov", 8, 200, T), ("tsan", 4, 200, T), ("miri", 8, 240, T)],
}
PLAN[10] = std(secs=60)
PLAN[28] = std(ops=20_000)
PLAN[29] = {
    "quick": [("cov", 8, 40, Q), ("release", 8, 10, Q)],
    "thorough": [("cov", 8, 200, T), ("release", 8, 60, T), ("asan", 8, 60, T)],
}
PLAN[30] = std(secs=50)
PLAN[23] = {
    "quick": [("cli", 8, 60, 5000)],
    "thorough": [("cli", 8, 300, 20_000)],
    "need": 500,
}

_HOW = ("Cases: the sample certificates, the focused enumerations of harness/src/props.rs, every structural edit "
        "and prefix of generated inputs, and coverage-guided mutation. Distinct: different input octets, counted over all workers and flavours. "
        "Non-trivial: ")
_DER = "the input is not empty and the observation was compared with the reference's verdict on it."
_CERT = ("the input has more than two octets (it was accepted, or refused with an error) and the "
         "observation was compared with the reference's verdict on it.")
RULES = {i: _HOW + (_DER if i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 24, 25, 26, 27, 28, 29, 30) else _CERT) for i in range(1, 31)}
RULES[23] = ("Cases: files (sample certificates, generated and damaged ones, nested and random DER) and command lines, "
             "each run through the decoder binary. Distinct: by the hash of mode, status and both outputs. "
             "Non-trivial: the process ran and its outputs were compared with the expected ones.")
ASSUMPTIONS = [
    "The reference decoder of the harness states the encoding rules correctly (its generators are checked against it on every run).",
    "Executions are sampled, apart from the small domains enumerated completely.",
]
