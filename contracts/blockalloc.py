"""thread/BlockAllocator.h: one block of 512 units with its intrusive free list"""
import os
from qmv.dsl import *
from qmv.core import *
from qmv.registry import contract, lemma
UNITS = [os.path.join(os.path.dirname(os.path.abspath(__file__)), 'units', 'blockalloc.cpp')]
BL = 'class.BlockAllocator::Block'; BA = 'class.BlockAllocator'; EPB = 512
# ghost state, universally quantified: position in the free list counted from its end (0: not free), unit starts, number of free units
RANK = z3.Function('free_rank!', I, I); UNIT = z3.Function('unit_start!', I, B); NFREE = z3.Int('free_units!')
def units(a):
    E = (a.m_sz + 7) / 8
    return E, E + 1
def inv(mem, first, alloc, end, U, R, S, n):
    p, q = z3.Ints('p! q!')
    fa = lambda vs, b: z3.ForAll(vs, b)
    return And(n >= 0, alloc >= 0, alloc + n <= EPB, end == U * (alloc + n), (first == -1) == (n == 0), Implies(n > 0, And(S(first), R(first) == n)),
        fa([p], Implies(S(p), And(p >= 0, p + U <= end))), fa([p, q], Implies(And(S(p), S(q), p < q), p + U <= q)),
        fa([p], And(R(p) >= 0, R(p) <= n, Implies(R(p) > 0, S(p)))), fa([p, q], Implies(And(R(p) > 0, R(p) == R(q)), p == q)),
        fa([p], Implies(R(p) == 1, mem(p) == -1)), fa([p], Implies(R(p) > 1, And(S(mem(p)), R(mem(p)) == R(p) - 1))))
def block(c):
    o = c.this(BL); a = o.pobj('m_a', BA)
    c.requires(And(a.m_sz >= 1, a.m_sz <= 2**16), 'element size')
    return o, a, units(a)
@contract('BlockAllocator::Block::allocate(unsigned long)', 'C25')
def _(c):
    o, a, (E, U) = block(c); idx = c.int()
    b = o.arr('m_block', I64, EPB * U); first, al, end = o.m_firstFreeUnit, o.m_allocated, o.m_end; n = NFREE
    c.requires(al < EPB, 'block is not full')
    c.requires(inv(lambda p: b[p], first, al, end, U, RANK, UNIT, n), 'free list')
    p = z3.Int('p!'); got = If(n > 0, first, end)
    R1 = lambda p: If(p == got, IntVal(0), RANK(p)); S1 = lambda p: Or(UNIT(p), p == got); n1 = If(n > 0, n - 1, 0)
    c.sets(o, 'm_allocated', al + 1); c.sets(o, 'm_end', If(n > 0, end, end + U)); c.sets(o, 'm_firstFreeUnit', None)
    c.assigns(b, lambda k: If(And(n == 0, k == end + E), idx, b[k]), 0, EPB * U)
    c.result_ptr(ArrV(c, b.ptr(got), I64))
    c.ensures('unit was not in use', lambda: z3.Not(And(UNIT(got), RANK(got) == 0)))
    c.ensures('unit inside the block', lambda: And(got >= 0, got + U <= EPB * U))
    c.ensures('unit overlaps no unit in use', lambda: z3.ForAll([p], Implies(And(UNIT(p), RANK(p) == 0), Or(p + U <= got, got + U <= p))))
    c.ensures('free list kept', lambda: inv(lambda p: b.new[p], o.new.m_firstFreeUnit, o.new.m_allocated, o.new.m_end, U, R1, S1, n1))
@contract('BlockAllocator::Block::allocate(unsigned long)', 'C25', case='first allocation')
def _(c):
    o, a, (E, U) = block(c); idx = c.int(); c.nullptr(o, 'm_block')
    c.requires(And(o.m_firstFreeUnit == -1, o.m_allocated == 0), 'empty block')
    c.free_fields(o, ['m_block', 'm_firstFreeUnit', 'm_allocated', 'm_end'])
    b = lambda: o.new.arr('m_block', I64, EPB * U)
    S = lambda p: p == 0; R = lambda p: IntVal(0)
    c.ensures('first unit of a new block', lambda: same_ptr(c.ret(), b().ptr(IntVal(0))))
    c.ensures('free list established', lambda: And(inv(lambda p: b()[p], o.new.m_firstFreeUnit, o.new.m_allocated, o.new.m_end, U, R, S, IntVal(0)), o.new.m_allocated == 1, b()[E] == idx))
@contract('BlockAllocator::Block::deallocate(unsigned long*)', 'C25')
def _(c):
    o, a, (E, U) = block(c); b = o.arr('m_block', I64, EPB * U); first, al, end = o.m_firstFreeUnit, o.m_allocated, o.m_end; n = NFREE
    at = c.into(b, 'released'); p = z3.Int('p!')
    c.requires(And(UNIT(at), RANK(at) == 0), 'unit in use'); c.requires(al > 1, 'others remain in use')
    c.requires(inv(lambda p: b[p], first, al, end, U, RANK, UNIT, n), 'free list')
    R1 = lambda p: If(p == at, n + 1, RANK(p))
    c.sets(o, 'm_allocated', al - 1); c.sets(o, 'm_firstFreeUnit', at); c.assigns(b, lambda k: If(k == at, first, b[k]), 0, EPB * U)
    c.ensures('free list kept', lambda: inv(lambda p: b.new[p], o.new.m_firstFreeUnit, o.new.m_allocated, o.new.m_end, U, R1, UNIT, n + 1))
    c.ensures('the unit is free, all others as before', lambda: And(R1(at) > 0, z3.ForAll([p], Implies(p != at, R1(p) == RANK(p)))))
@contract('BlockAllocator::Block::deallocate(unsigned long*)', 'C25', case='last one in use')
def _(c):
    o, a, (E, U) = block(c); b = o.arr('m_block', I64, EPB * U); first, al, end = o.m_firstFreeUnit, o.m_allocated, o.m_end; n = NFREE
    at = c.into(b, 'released')
    c.requires(And(UNIT(at), RANK(at) == 0), 'unit in use'); c.requires(al == 1, 'no others in use')
    c.requires(inv(lambda p: b[p], first, al, end, U, RANK, UNIT, n), 'free list')
    c.free(b); c.free_fields(o, ['m_block', 'm_firstFreeUnit', 'm_allocated'])
    c.ensures('block released, empty again', lambda: And(o.new.m_allocated == 0, o.new.m_firstFreeUnit == -1, BoolVal(isinstance(o.new.rawptr('m_block'), PNull))))
