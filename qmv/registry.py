"""registry of contracts"""
ALL = {}
def contract(dem, *props, case=None, **kw):
    """case: a further contract of the same function, for another part of its precondition (callers use the main one)"""
    from .dsl import Contract
    def deco(f):
        c = Contract(dem, f, **kw)
        c.props = props
        key = dem if case is None else '%s [%s]' % (dem, case)
        if key in ALL: raise Exception('duplicate contract ' + key)
        ALL[key] = c
        return c
    return deco

class Lemma:
    """a consequence of the contracts alone: prove(eng) issues obligations"""
    kind = 'lemma'; modular = False; optional = False; weight = 1; cname = None
    def __init__(self, name, fn, props): self.dem = name; self.fn = fn; self.props = props
    def prove(self, eng):
        eng.target = self.dem; eng.where = self.dem
        self.fn(eng)

def lemma(name, *props):
    def deco(f):
        ALL[name] = Lemma(name, f, props)
        return f
    return deco
