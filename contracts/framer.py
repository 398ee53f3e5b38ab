from qmv.dsl import *
from qmv.registry import contract, lemma
UNITS = ['dsp/signalconditioning/Framer.cpp']
F = 'class.Framer'
CAP = 2**30

@contract('Framer::Framer()', 'C16')
def _(c):
    o = c.this(F, ctor=True)
    for f in ('m_sampleLen', 'm_framesRead', 'm_frameLength', 'm_stepSize', 'm_maxFrames', 'm_srcIndex'):
        c.ensures(f + ' zero', lambda f=f: getattr(o.new, f) == 0)

@contract('Framer::resetCounters()', 'C16')
def _(c):
    o = c.this(F)
    c.sets(o, 'm_framesRead', IntVal(0)); c.sets(o, 'm_srcIndex', IntVal(0))

@contract('Framer::getMaxNoFrames()', 'C16')
def _(c):
    o = c.this(F); c.result(o.m_maxFrames)

# the number of hop-spaced frames needed to cover the source
def nframes(length, hop): return (length + hop - 1) / hop

@contract('Framer::setSource(double*, long)', 'C16')
def _(c):
    o = c.this(F); src = c.arr(DOUBLE); n = c.int()
    c.requires(And(n >= 0, n <= 2**60, o.m_stepSize >= 1))   # the pointer is only stored here
    c.ensures('source length', lambda: o.new.m_sampleLen == n)
    c.ensures('source pointer', lambda: BoolVal(same_ptr(o.new.rawptr('m_srcBuffer'), src.p)))
    c.ensures('number of frames', lambda: o.new.m_maxFrames == If(nframes(n, o.m_stepSize) > 2**31 - 1, 2**31 - 1, nframes(n, o.m_stepSize)))
    c.ensures('starts from the beginning', lambda: And(o.new.m_srcIndex == 0, o.new.m_framesRead == 0))
    c.free_fields(o, ['m_sampleLen', 'm_srcBuffer', 'm_maxFrames', 'm_srcIndex', 'm_framesRead'])

@contract('Framer::configure(int, int)', 'C16')
def _(c):
    o = c.this(F); L = c.int(); hop = c.int()
    c.requires(And(L >= 0, hop >= 0, L <= CAP, hop <= CAP))
    o.arr('m_dataFrame', DOUBLE, 0); o.arr('m_strideFrame', DOUBLE, 0)
    c.free_fields(o, ['m_dataFrame', 'm_strideFrame', 'm_frameLength', 'm_stepSize', 'm_srcIndex', 'm_framesRead'])
    c.ensures('configured', lambda: And(o.new.m_frameLength == L, o.new.m_stepSize == hop, o.new.m_srcIndex == 0, o.new.m_framesRead == 0))
    c.ensures('buffers', lambda: And(*(c.allocated(o.new, 'm_dataFrame', L) + c.allocated(o.new, 'm_strideFrame', hop))))

@contract('Framer::getFrame(double*)', 'C16')
def _(c):
    o = c.this(F); dst = c.arr(DOUBLE)
    L = o.m_frameLength; n = o.m_sampleLen; s = o.m_srcIndex; hop = o.m_stepSize
    c.requires(And(L >= 0, L <= CAP, hop >= 0, hop <= CAP, n >= 0, n <= 2**50, s >= 0, s <= 2**50, o.m_framesRead >= 0, o.m_framesRead < 2**31 - 1))
    c.valid(dst, L)
    src = o.arr('m_srcBuffer', DOUBLE, n)
    c.assigns(dst, lambda k: If(s + k < n, src[s + k], RealVal(0)), 0, L)
    c.sets(o, 'm_srcIndex', s + hop); c.sets(o, 'm_framesRead', o.m_framesRead + 1)

@lemma('frames cover the source: every sample lies in a frame below the reported number, and no smaller number does it', 'C16')
def _(eng):
    from qmv.core import State
    st = State(); n, hop, t = z3.Ints('n hop t')
    st.fact(And(n >= 1, hop >= 1, t >= 0, t < n))
    q, r = z3.Ints('q r')   # t = q*hop + r
    st.fact(And(t == q * hop + r, r >= 0, r < hop, q >= 0))
    m = nframes(n, hop); M = z3.Int('M'); rr = z3.Int('rr')
    st.fact(And(n + hop - 1 == M * hop + rr, rr >= 0, rr < hop))
    eng.oblige(st, q < M, 'lemma', 'frame index of any sample is below the number of frames')
    eng.oblige(st, (M - 1) * hop < n, 'lemma', 'the last frame starts inside the source')
