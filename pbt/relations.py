"""Relations between the outcomes of several runs (replay files that start with 'relation NAME')."""


def same_digests(rs):
    a = sorted(rs[0].digest)
    for i, r in enumerate(rs[1:], 2):
        b = sorted(r.digest)
        if a != b:
            d = [x for x in b if x not in a]
            return False, "run 1 and run %d give different bits for the same data: %s" % (i, d[:3])
    return True, ""


def check(name, results):
    return {"same_digests": same_digests}[name](results)
