CHECKS = {}


def check(pid, sources, explain, min=1, assume=(), technique='path-sensitive abstract interpretation'):
    def d(fn):
        assert pid not in CHECKS, pid
        CHECKS[pid] = dict(fn=fn, sources=list(sources), explain=explain, min=min, assume=list(assume), technique=technique)
        return fn
    return d
