from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
from contracts.mathutils import *
UNITS = ['dsp/tempotracking/TempoTrackV2.cpp']
T = 'class.TempoTrackV2'
CAP = 2**24

def above(v): return v
@contract('TempoTrackV2::get_max_val(std::vector<double, std::allocator<double> > const&)', 'C17', optional=True)
def _(c):
    o = c.this(T); v = c.vec(); n = v.size
    c.requires(n <= CAP)
    c.ensures('not below zero or any element', lambda: And(c.ret() >= 0, forall(0, n, lambda k: v[k] <= c.ret())))
    w = z3.Int('w!')
    c.ensures('zero or some element', lambda: Or(And(c.ret() == 0, forall(0, n, lambda k: v[k] <= 0)), z3.Exists([w], And(w >= 0, w < n, v[w] == c.ret()))))
@contract('TempoTrackV2::get_max_ind(std::vector<double, std::allocator<double> > const&)', 'C17', optional=True)
def _(c):
    o = c.this(T); v = c.vec(); n = v.size
    c.requires(n <= CAP)
    c.ensures('in range', lambda: And(c.ret() >= 0, Or(c.ret() < n, And(n == 0, c.ret() == 0))))
    c.ensures('first largest positive value', lambda: Or(And(c.ret() == 0, forall(0, n, lambda k: v[k] <= 0)), And(v[c.ret()] > 0, forall(0, n, lambda k: v[k] <= v[c.ret()]), forall(0, c.ret(), lambda k: v[k] < v[c.ret()]))))
    def inv(loc, it):
        x = loc.phi('maxval'); d = loc.phi('ind')
        return Or(And(d == 0, x == 0, forall(0, it, lambda k: v[k] <= 0)), And(x > 0, d >= 0, d < it, v[d] == x, forall(0, it, lambda k: v[k] <= x), forall(0, d, lambda k: v[k] < x)))
    c.local_inv('first maximum so far', inv)

@contract('TempoTrackV2::calculateBeats(std::vector<double, std::allocator<double> > const&, std::vector<double, std::allocator<double> > const&, std::vector<double, std::allocator<double> >&, double, double)', 'C17')
def _(c):
    o = c.this(T); df = c.vec(); bp = c.vec(); beats = c.vec(); alpha = c.real(); tight = c.real()
    n = df.size; m = bp.size; s = beats.size
    c.requires(And(n <= CAP, m <= CAP, m >= n, s >= 0, s <= CAP), 'sizes')
    c.requires_each(bp, m, lambda v: And(v >= 1, v <= 2**20), 'beat periods of at least one step')
    c.free(beats)
    c.ensures('at least one beat', lambda: Implies(n > 0, beats.new.size > s))
    c.ensures('earlier contents kept', lambda: And(beats.new.size >= s, forall(0, s, lambda k: beats.new[k] == beats[k])))
    c.ensures('in range', lambda: forall(s, beats.new.size, lambda k: And(beats.new[k] >= 0, beats.new[k] < z3.ToReal(n))))
    c.ensures('strictly increasing', lambda: forall(s + 1, beats.new.size, lambda k: beats.new[k - 1] < beats.new[k]))
    def back(loc, it):
        if 'backlink' not in loc.mods: return None
        b = loc.vec('backlink', I32)
        return forall(0, n, lambda k: b[k] <= k - 1)
    c.local_inv('links point backwards', back)
    def chain(loc, it):
        if 'ibeats' not in loc.mods: return None
        b = loc.vec('ibeats', I32)
        return And(b.size == it + 1, forall(0, it + 1, lambda k: And(b[k] >= 0, b[k] < n, b[k] <= n - 1 - k)), forall(1, it + 1, lambda k: b[k] < b[k - 1]))
    c.local_inv('beats descend', chain)
