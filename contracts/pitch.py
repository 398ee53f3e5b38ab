from qmv.dsl import *
from qmv.registry import contract, lemma
UNITS = ['base/Pitch.cpp']
LOG = uf('log', 1); POW = uf('pow', 2)

@contract('Pitch::getFrequencyForPitch(int, float, float)', 'C22')
def _(c):
    m = c.int(); cents = c.real(); A = c.real()
    c.result(A * POW(RealVal(2), (z3.ToReal(m) + cents / 100 - 69) / 12))

def semis(f, A): return 12 * (LOG(f / (A / 2)) / LOG(RealVal(2))) + 57

@contract('Pitch::getPitchForFrequency(float, float*, float)', 'C22')
def _(c):
    f = c.real(); out = c.arr(FLOAT, 1, null=True); A = c.real()
    p = semis(f, A)
    c.requires(And(f > 0, A > 0, LOG(RealVal(2)) > 0))
    c.requires(And(p >= 0, p < 100000), 'at least MIDI pitch 0')
    c.assigns(out, None, 0, 1)
    nul = c.isnull(out)
    c.ensures('cents within a semitone', lambda: Implies(Not(nul), And(out.new[0] >= -50, out.new[0] <= 50)))
    c.ensures('pitch and cents add up', lambda: Implies(Not(nul), z3.ToReal(c.retv) + out.new[0] / 100 == p))
    c.ensures('nearest semitone', lambda: And(z3.ToReal(c.retv) - p <= RealVal('1/2'), p - z3.ToReal(c.retv) <= RealVal('1/2')))

@lemma('Pitch round trip: converting the returned pitch and cents back gives the frequency', 'C22')
def _(eng):
    from qmv.core import State
    st = State()
    f, A, cents, y = z3.Reals('f A cents y'); m = z3.Int('m')
    st.fact(And(f > 0, A > 0, LOG(RealVal(2)) > 0))
    # from the contract of getPitchForFrequency
    st.fact(z3.ToReal(m) + cents / 100 == semis(f, A))
    # mathematics of log and pow at the one point used
    x = f / (A / 2)
    st.fact(y == LOG(x) / LOG(RealVal(2)))
    st.fact(POW(RealVal(2), y - 1) == x / 2)
    eng.assumptions.add('mathematical fact: 2^(log x / log 2 - 1) = x/2 for x > 0')
    # contract of getFrequencyForPitch
    e = (z3.ToReal(m) + cents / 100 - 69) / 12
    eng.oblige(st, e == y - 1, 'lemma', 'the exponent is log2(2f/A) - 1')
    st.fact(POW(RealVal(2), e) == POW(RealVal(2), y - 1))
    P = z3.Real('P'); st2 = State(); st2.fact(A > 0); st2.fact(P == (f / (A / 2)) / 2)
    eng.oblige(st2, A * P == f, 'lemma', 'concertA * 2^exponent equals the frequency')
