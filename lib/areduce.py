"""Shrinks a failing generated program by deleting statements while it keeps failing."""
import agen


def lists(n):
    """All statement lists below node n, outermost first."""
    if isinstance(n, agen.Block):
        yield n.body
        for s in list(n.body):
            yield from lists(s)
    elif isinstance(n, agen.If):
        for _, b in n.arms:
            yield from lists(b)
        if n.els is not None:
            yield from lists(n.els)
    elif isinstance(n, (agen.While, agen.DoWhile, agen.For)):
        yield from lists(n.b)
    elif isinstance(n, agen.Switch):
        yield n.sections
        for _, b in n.sections:
            yield b
            for s in list(b):
                yield from lists(s)
    elif isinstance(n, agen.Try):
        yield from lists(n.body)
        for _, b in n.catches:
            yield from lists(b)
        if n.fin is not None:
            yield from lists(n.fin)


def allowed(l, i, p):
    """Deletions that keep the program well-formed: a section keeps its closing jump and a
    function with a result its last return."""
    x = l[i]
    if isinstance(x, (agen.BreakS, agen.ReturnS, agen.ThrowS, agen.RethrowS, agen.GotoS, agen.ContinueS)):
        return not (i == len(l) - 1)
    return True


def reduce(p, failing, budget=400):
    """failing(p) -> bool. Mutates and returns p."""
    tries = 0
    changed = True
    while changed and tries < budget:
        changed = False
        groups = [p.funcs] + [l for root in [p.main] + [f.body for f in p.funcs] for l in lists(root)]
        for l in groups:
            i = len(l) - 1
            while i >= 0 and tries < budget:
                if i < len(l) and allowed(l, i, p):
                    x = l.pop(i)
                    tries += 1
                    try:
                        ok = failing(p)
                    except Exception:
                        ok = False
                    if ok:
                        changed = True
                    else:
                        l.insert(i, x)
                i -= 1
    return p
