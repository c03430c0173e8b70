"""Random server temperaments and small helpers shared by the checks that talk PSRP."""
from . import server as srv


def temper(s, r):
    """Batching, fragment sizes, stream splitting and command ids as some server might have them."""
    k = r.random()
    if k < 0.3:
        s.frag = None
    elif k < 0.5:
        n = r.choice([1, 7, 40, 41, 64, 100, 1000])
        if n < 41:
            s.frag = lambda: r.choice([n, 200, 3000])
        else:
            s.frag = lambda: n
    else:
        s.frag = lambda: r.choice([1, 2, 39, 40, 41, 90, 500, 5000, 32768])
    k = r.random()
    if k < 0.25:
        s.batch = lambda n: 1
    elif k < 0.5:
        s.batch = lambda n: n
    elif k < 0.75:
        s.batch = lambda n: r.randint(1, n)
    else:
        s.batch = None
    s.one_stream = r.random() < 0.4
    s.own_command_ids = r.random() < 0.15
    return s


def sprinkle(target, r, p=0.15, what=("T", "E", "B")):
    """Puts empty polls, operation time-outs and batch barriers between the queued fragments."""
    out = []
    for f in target.queue:
        while r.random() < p:
            out.append((r.choice(what),))
        out.append(f)
    while r.random() < p and what:
        out.append((r.choice([w for w in what if w != "B"] or ["E"]),))
    target.queue = out


def make(case, **kw):
    return temper(srv.Server(case.rng, **kw), case.rng)


def open_pool(net, conn_kw=None, open_kw=None, **kw):
    from pypsrp.powershell import RunspacePool
    p = RunspacePool(srv.connection(net.servers[0].host, **(conn_kw or {})), **kw)
    p.open(**(open_kw or {}))
    return p
