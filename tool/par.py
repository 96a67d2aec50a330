"""Fork-based parallel map over a preloaded program."""
import multiprocessing, os
_f = None
_items = None


def _run(rng):
    return [_f(_items[i]) for i in rng]


def pmap(f, items, chunk=8):
    global _f, _items
    items = list(items)
    n = min(os.cpu_count() or 4, 8)
    if len(items) < 8 or n < 2:
        return [f(x) for x in items]
    _f, _items = f, items
    idx = list(range(len(items)))
    # interleave so that big functions spread over the workers
    chunks = [idx[i:i + chunk] for i in range(0, len(idx), chunk)]
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(n) as p:
        res = p.map(_run, chunks, 1)
    out = []
    for r in res:
        out += r
    return out
