"""C17: results depend only on current inputs, not on call history"""
import hist


def scenarios(tier, rng):
    res = []
    for name in ('core', 'empty', 'again', 'long'):
        for i, h in enumerate(hist.read(name)):
            res.append(('%s%d' % (name, i), 'run', dict(h=h)))
    return res


def run(h):
    return hist.replay(h)
