"""Contract of KDTree seen from its users: inserts are counted, the leaf count never exceeds them
(C09 proves it equals the number of distinct bins)."""
from api import *
INS = ('ghost:ins', (), 0)
def install(c, st, oninsert=None):
    st.write(INS, z3.Int('ins0')); st.fact(z3.Int('ins0') >= 0)
    T = 'ndt_2d::KDTree<double>::'
    def k_clear(ex, s, g, a): s.write(INS, 0)
    def k_insert(ex, s, g, a):
        s.write(INS, add(s.read(INS), 1))
        if oninsert: oninsert(ex, s, a)
    def k_count(ex, s, g, a):
        k = ex.fresh('leaves', I)
        s.fact(and_(k >= 0, le(k, s.read(INS)), implies(gt(s.read(INS), 0), k >= 1)))
        return k
    c.ex.contracts[norm(T + 'clear')] = k_clear
    c.ex.contracts[norm(T + 'insert')] = k_insert
    c.ex.contracts[norm(T + 'getLeafCount')] = k_count
