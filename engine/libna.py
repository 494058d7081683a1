"""Models of nalgebra (dense matrices and column vectors)."""
from terms import *
import terms as TM
from interp import *
import interp as I

def isvec(ty):
    """the matrix type has one column"""
    t = ty
    while t is not None and t[0] == 'ref': t = t[2]
    return t is not None and t[0] == 'adt' and t[1].endswith('matrix::Matrix') and is_vec_ty(t)

DIMS = {'zeros': 1, 'from_element': 2, 'repeat': 2, 'from_vec': 1, 'from_iterator': 2, 'from_row_slice': 1, 'from_column_slice': 1}
def isrow(ty):
    """the matrix type has one row"""
    while ty is not None and ty[0] == 'ref': ty = ty[2]
    return ty is not None and ty[0] == 'adt' and ty[1].endswith('matrix::Matrix') and len(ty[2]) >= 2 and ty[2][1][0] == 'adt' and ty[2][1][1].endswith('Const')

def ismat(v): return v.op == 'mat' or (v.op in ('sym', 'app', 'fld', 'sel', 'fold') and seq_sort(v) is None) or (v.op == 'ite' and ismat(v.args[1]))

def same_shape(it, a, b, sp):
    it.may_panic(and_(ieq(nrows(a), nrows(b)), ieq(ncols(a), ncols(b))), 'matrix dimension mismatch', sp)

def arith(it, op, a, b, sp):
    if is_unk(a) or (b is not None and is_unk(b)): return unk('matrix operation')
    if op == 'neg': return matmap(a, neg)
    if op in ('add', 'sub'):
        same_shape(it, a, b, sp)
        return matzip(a, b, add if op == 'add' else sub)
    ma, mb = is_m(a), is_m(b)
    if op == 'mul':
        if ma and mb:
            it.may_panic(ieq(ncols(a), nrows(b)), 'matrix dimension mismatch', sp)
            return matmul(a, b)
        if ma: return matmap(a, lambda x: mul(x, b))
        if mb: return matmap(b, lambda x: mul(a, x))
    if op == 'div' and ma: return matmap(a, lambda x: div(x, b))
    return unk('matrix operator ' + op)
def is_m(v):
    if v.op == 'mat': return True
    if v.op in ('sym',): return v.args[1] == 'mat'
    if v.op == 'app': return v.args[1] == 'mat'
    if v.op == 'fld': return v.args[2] == 'mat'
    if v.op == 'ite': return is_m(v.args[1])
    if v.op == 'fold': return is_m(v.args[2][v.args[3]])
    if v.op == 'sel': return seq_sort(v.args[0]) == 'mat'
    return False

def call(it, key, name, targs, a, rty, sp):
    import lib
    p = it.p
    cons = {'zeros': 1, 'identity': 1, 'from_element': 2, 'repeat': 2, 'from_fn': 2, 'from_iterator': 2, 'from_row_slice': 2, 'from_column_slice': 2, 'zeros_generic': 1, 'from_diagonal_element': 2, 'from_vec': 1, 'from_diagonal': 1, 'from_columns': 1, 'from_rows': 1, 'from_partial_diagonal': 2}
    if name in cons and not (a and name in ('from_element',) and False):
        vals = [it.val(x) if name not in ('from_fn', 'from_iterator') else x for x in a]
        if len(vals) == DIMS.get(name, -1) and isrow(rty) and not isvec(rty):
            # one size only: a row vector
            r = call(it, key, name, targs, a, None, sp)
            return r if is_unk(r) else mat(ONE, nrows(r), lambda i, j: mat_at(r, j, ZERO))
        if name == 'zeros':
            if len(vals) == 1: return vecm(vals[0], lambda i: ZERO)
            return mat(vals[0], vals[1], lambda i, j: ZERO_of(it, targs))
        if name in ('from_element', 'repeat'):
            x = vals[-1]
            if len(vals) == 2: return vecm(vals[0], lambda i: x)
            return mat(vals[0], vals[1], lambda i, j: x)
        if name == 'identity':
            if len(vals) == 1: return mat(vals[0], ONE, lambda i, j: ite(ieq(i, j), ONE, ZERO))
            return identity(vals[0], vals[1])
        if name == 'from_diagonal_element':
            return mat(vals[0], vals[1], lambda i, j: ite(ieq(i, j), vals[2], ZERO))
        if name == 'from_diagonal':
            d = vals[0]
            return mat(nrows(d), nrows(d), lambda i, j: ite(ieq(i, j), mat_at(d, i, ZERO), ZERO))
        if name == 'from_vec':
            s = vals[-1]
            if len(vals) == 1: return vecm(length(s), lambda i: at(s, i))
            r = vals[0]
            return mat(vals[0], vals[1], lambda i, j: at(s, add(i, mul(r, j))))
        if name == 'from_iterator':
            s = lib.sub_seq(it, a[-1])
            s = lib.smap(it, s, lambda x: it.val(x))
            n = it.val(a[0])
            it.may_panic(le(n if len(a) == 2 else mul(n, it.val(a[1])), length(s)), 'iterator too short', sp)
            if len(a) == 2: return vecm(n, lambda i: at(s, i))
            return mat(n, it.val(a[1]), lambda i, j: at(s, add(i, mul(n, j))))
        if name in ('from_row_slice', 'from_column_slice'):
            s = vals[-1]
            if len(vals) == 1: return vecm(length(s), lambda i: at(s, i))
            r, c = vals[0], vals[1]
            if name == 'from_row_slice': return mat(r, c, lambda i, j: at(s, add(mul(i, c), j)))
            return mat(r, c, lambda i, j: at(s, add(i, mul(r, j))))
        if name == 'from_fn':
            f = a[-1]
            i = fresh('i', 'nat'); j = fresh('j', 'nat')
            r = it.val(a[0]); c = it.val(a[1]) if len(a) == 3 else ONE
            j2 = ZERO if c is ONE else j
            x = lib.each(it, and_(lt(i, r), lt(j, c)), or_(le(r, ZERO), le(c, ZERO)), lambda: lib.capply(it, f, i, j2))
            return mk('mat', r, c, lam_over(i, lam_over(j, x)))
        if name in ('from_columns', 'from_rows'):
            s = vals[0]
            n = length(s)
            m0 = at(s, ZERO)
            if name == 'from_columns': return mat(nrows(m0), n, lambda i, j: mat_at(at(s, j), i, ZERO))
            return mat(n, ncols(m0), lambda i, j: mat_at(at(s, i), ZERO, j))
        return unk('nalgebra ' + name)
    if not a: return None
    r = a[0]
    mutators = {'copy_from', 'fill', 'set_column', 'set_row', 'swap', 'scale_mut', 'neg_mut', 'apply', 'axpy', 'gemv', 'fill_diagonal', 'swap_rows', 'swap_columns', 'add_assign', 'copy_from_slice', 'component_mul_assign', 'set_diagonal', 'fill_with_identity', 'gemm', 'tr_copy_from', 'scale_mut', 'zip_apply', 'set_partial_diagonal', 'transpose_mut'}
    refs = {'column_mut', 'row_mut', 'iter_mut', 'as_mut_slice', 'index_mut', 'get_mut', 'columns_mut', 'rows_mut', 'view_mut', 'slice_mut', 'column_iter_mut', 'row_iter_mut'}
    if name in mutators:
        pl = it.slot(r); m = it.read(pl)
        while m.op == 'mref': pl = it.deref(m); m = it.read(pl)
        w = lambda x: (it.write(pl, x), UNIT)[1]
        if is_unk(m): return UNIT
        if name == 'copy_from':
            x = it.val(a[1])
            same_shape(it, m, x, sp)
            return w(mat(nrows(m), ncols(m), lambda i, j: mat_at(x, i, j)))
        if name == 'copy_from_slice':
            x = it.val(a[1]); R = nrows(m)
            return w(mat(nrows(m), ncols(m), lambda i, j: at(x, i if ncols(m) is ONE else add(i, mul(R, j)))))
        if name == 'fill':
            x = it.val(a[1]); return w(mat(nrows(m), ncols(m), lambda i, j: x))
        if name == 'set_column':
            c, x = it.val(a[1]), it.val(a[2])
            it.may_panic(lt(c, ncols(m)), 'column out of bounds', sp)
            it.may_panic(ieq(nrows(m), nrows(x)), 'column length mismatch', sp)
            return w(mat(nrows(m), ncols(m), lambda i, j: ite(ieq(j, c), mat_at(x, i, ZERO), mat_at(m, i, j))))
        if name == 'set_row':
            c, x = it.val(a[1]), it.val(a[2])
            it.may_panic(lt(c, nrows(m)), 'row out of bounds', sp)
            it.may_panic(ieq(ncols(m), ncols(x)), 'row length mismatch', sp)
            return w(mat(nrows(m), ncols(m), lambda i, j: ite(ieq(i, c), mat_at(x, ZERO, j), mat_at(m, i, j))))
        if name == 'neg_mut': return w(matmap(m, neg))
        if name == 'scale_mut':
            x = it.val(a[1]); return w(matmap(m, lambda y: mul(x, y)))
        if name == 'component_mul_assign':
            x = it.val(a[1]); return w(matzip(m, x, mul))
        if name == 'fill_with_identity': return w(identity(nrows(m), ncols(m)))
        if name == 'axpy':
            al, x, be = it.val(a[1]), it.val(a[2]), it.val(a[3])
            return w(matzip(x, m, lambda u, v: add(mul(al, u), mul(be, v))))
        it.write(pl, unk('nalgebra ' + name)); return UNIT
    if name in refs:
        pl = it.slot(r); m = it.read(pl)
        while m.op == 'mref': pl = it.deref(m); m = it.read(pl)
        if is_unk(m): return unk(UNKS[m])
        if name == 'column_mut':
            c = it.val(a[1]); it.may_panic(lt(c, ncols(m)), 'column out of bounds', sp)
            return mk('mref', pl.loc, pl.path + ('col', c))
        if name == 'row_mut':
            c = it.val(a[1]); it.may_panic(lt(c, nrows(m)), 'row out of bounds', sp)
            return mk('mref', pl.loc, pl.path + ('row', c))
        if name in ('iter_mut', 'as_mut_slice'):
            n = length(lib.flat(m))
            if name == 'as_mut_slice' and ncols(m) is not ONE: return unk('mutable slice of a matrix')
            if name == 'as_mut_slice': return unk('mutable slice of a vector')
            return lib.mkit(arr(n, lambda i: mk('mref', pl.loc, pl.path + ('l', i))))
        if name == 'column_iter_mut':
            return lib.mkit(arr(ncols(m), lambda j: mk('mref', pl.loc, pl.path + ('col', j))))
        if name == 'row_iter_mut':
            return lib.mkit(arr(nrows(m), lambda j: mk('mref', pl.loc, pl.path + ('row', j))))
        return unk('nalgebra ' + name)
    m = it.val(r)
    if is_unk(m): return unk(UNKS[m])
    if name == 'nrows': return nrows(m)
    if name == 'ncols': return ncols(m)
    if name == 'len': return mul(nrows(m), ncols(m))
    if name == 'shape': return tup(nrows(m), ncols(m))
    if name == 'is_empty': return eq0(mul(nrows(m), ncols(m)))
    if name in ('as_slice', 'data', 'to_vec'): return lib.flat(m)
    if name in ('iter', 'into_iter'): return lib.mkit(lib.flat(m))
    if name in ('clone', 'clone_owned', 'into_owned', 'as_view', 'as_ref', 'columns_range', 'eval'): return m
    if name == 'abs': return matmap(m, lambda x: fn('abs', x))
    if name == 'neg': return matmap(m, neg)
    if name == 'map':
        if nrows(m) is ZERO or ncols(m) is ZERO: return m
        i = fresh('i', 'nat'); j = fresh('j', 'nat')
        jj = ZERO if ncols(m) is ONE else j
        x = lib.each(it, and_(lt(i, nrows(m)), lt(jj, ncols(m))), or_(le(nrows(m), ZERO), le(ncols(m), ZERO)), lambda: lib.capply(it, a[1], mat_at(m, i, jj)))
        return mk('mat', nrows(m), ncols(m), lam_over(i, lam_over(j, x)))
    if name == 'zip_map':
        o = it.val(a[1])
        same_shape(it, m, o, sp)
        i = fresh('i', 'nat'); j = fresh('j', 'nat')
        jj = ZERO if ncols(m) is ONE else j
        x = lib.each(it, and_(lt(i, nrows(m)), lt(jj, ncols(m))), or_(le(nrows(m), ZERO), le(ncols(m), ZERO)), lambda: lib.capply(it, a[2], mat_at(m, i, jj), mat_at(o, i, jj)))
        return mk('mat', nrows(m), ncols(m), lam_over(i, lam_over(j, x)))
    if name == 'column':
        c = it.val(a[1]); it.may_panic(lt(c, ncols(m)), 'column out of bounds', sp)
        return mat(nrows(m), ONE, lambda i, j: mat_at(m, i, c))
    if name == 'row':
        c = it.val(a[1]); it.may_panic(lt(c, nrows(m)), 'row out of bounds', sp)
        return mat(ONE, ncols(m), lambda i, j: mat_at(m, c, j))
    if name == 'column_iter': return lib.mkit(arr(ncols(m), lambda c: mat(nrows(m), ONE, lambda i, j: mat_at(m, i, c))))
    if name == 'row_iter': return lib.mkit(arr(nrows(m), lambda c: mat(ONE, ncols(m), lambda i, j: mat_at(m, c, j))))
    if name == 'transpose': return mat(ncols(m), nrows(m), lambda i, j: mat_at(m, j, i))
    if name == 'component_mul': return matzip(m, it.val(a[1]), mul)
    if name == 'scale': 
        x = it.val(a[1]); return matmap(m, lambda y: mul(x, y))
    if name == 'dot':
        o = it.val(a[1])
        return sum_(nrows(m), lambda k: sum_(ncols(m), lambda l: mul(mat_at(m, k, l), mat_at(o, k, l))))
    if name == 'tr_mul':
        o = it.val(a[1])
        return matmul(mat(ncols(m), nrows(m), lambda i, j: mat_at(m, j, i)), o)
    if name == 'sum': return sum_(nrows(m), lambda i: sum_(ncols(m), lambda j: mat_at(m, i, j)))
    if name == 'get':
        i = it.val(a[1])
        if i.op == 'st':
            return ite(and_(lt(i.args[2], nrows(m)), lt(i.args[3], ncols(m))), some(mat_at(m, i.args[2], i.args[3])), NONE)
        return ite(lt(i, mul(nrows(m), ncols(m))), some(mat_lin(m, i)), NONE)
    if name == 'rows':
        lo, n = it.val(a[1]), it.val(a[2])
        it.may_panic(le(add(lo, n), nrows(m)), 'rows out of bounds', sp)
        return mat(n, ncols(m), lambda i, j: mat_at(m, add(lo, i), j))
    if name == 'columns':
        lo, n = it.val(a[1]), it.val(a[2])
        it.may_panic(le(add(lo, n), ncols(m)), 'columns out of bounds', sp)
        return mat(nrows(m), n, lambda i, j: mat_at(m, i, add(lo, j)))
    return unk('nalgebra ' + name)
def ZERO_of(it, targs): return ZERO
