"""Instantiation of quantified facts at the terms of a goal.

The formula is put into negation normal form, existentials become fresh constants, and every universal is instantiated at the
integer constants of the goal (the fresh ones included) and their neighbours.  The instances are consequences of the formula,
so unsatisfiability of them is unsatisfiability of the formula.  Universals stay in the formula for E-matching.
"""
import z3

INT = z3.IntSort()


class Inst:
    def __init__(self, limit=4000):
        self.n = 0
        self.skolems = []
        self.foralls = {}        # id -> (atom, quantifier)
        self.limit = limit

    def fresh(self, sort):
        self.n += 1
        c = z3.Const('sk!!{}'.format(self.n), sort)
        if sort == INT:
            self.skolems.append(c)
        return c

    def nnf(self, f, pos=True):
        if z3.is_quantifier(f):
            if f.is_lambda():
                return f if pos else z3.Not(f)
            if f.is_exists() == pos:
                cs = [self.fresh(f.var_sort(i)) for i in range(f.num_vars())]
                return self.nnf(z3.substitute_vars(f.body(), *reversed(cs)), pos)
            return self.universal(f, pos)
        if z3.is_app(f) and z3.is_bool(f) and f.num_args() and has_quantifier(f):
            k = f.decl().kind()
            a = f.children()
            if k == z3.Z3_OP_NOT:
                return self.nnf(a[0], not pos)
            if k == z3.Z3_OP_AND or k == z3.Z3_OP_OR:
                parts = [self.nnf(x, pos) for x in a]
                return z3.And(*parts) if (k == z3.Z3_OP_AND) == pos else z3.Or(*parts)
            if k == z3.Z3_OP_IMPLIES:
                parts = [self.nnf(a[0], not pos), self.nnf(a[1], pos)]
                return z3.Or(*parts) if pos else z3.And(*parts)
            if k == z3.Z3_OP_EQ and z3.is_bool(a[0]):
                x, y, nx, ny = self.nnf(a[0], True), self.nnf(a[1], True), self.nnf(a[0], False), self.nnf(a[1], False)
                return z3.And(z3.Or(nx, y), z3.Or(ny, x)) if pos else z3.And(z3.Or(x, y), z3.Or(nx, ny))
            if k == z3.Z3_OP_ITE:
                c, nc = self.nnf(a[0], True), self.nnf(a[0], False)
                return z3.And(z3.Or(nc, self.nnf(a[1], pos)), z3.Or(c, self.nnf(a[2], pos)))
        return f if pos else z3.Not(f)

    def universal(self, f, pos):
        """A positive universal (or a negated existential): an atom which implies its instances"""
        key = (f.get_id(), pos)
        if key not in self.foralls:
            self.n += 1
            self.foralls[key] = (z3.Bool('all!!{}'.format(self.n)), f, pos, set())
        return self.foralls[key][0]

    def solve(self, facts, neg, terms, timeout):
        s = z3.SolverFor('AUFLIA') if False else z3.Solver()
        s.set('timeout', timeout)
        s.set('mbqi', False)
        keep = []
        goal = self.nnf(neg)
        keep.append(goal)
        s.add(goal)
        for f in facts:
            if not z3.is_quantifier(f) and not has_quantifier(f):
                s.add(f)
                continue
            g = self.nnf(f)
            keep.append(g)
            s.add(g)
        count = 0
        for rounds in range(3):
            base = list(terms) + list(self.skolems)
            if rounds == 1:
                base = base + [t + d for t in base[:12] for d in (1, -1)]
            if rounds == 2:
                base = base + [z3.IntVal(0)]
            for key, (atom, f, pos, done) in list(self.foralls.items()):
                k = f.num_vars()
                if any(f.var_sort(i) != INT for i in range(k)) or k > 2:
                    if not done:
                        done.add(())
                        q = f if pos else z3.Not(f)
                        s.add(z3.Implies(atom, q))
                    continue
                if k == 1:
                    tuples = [(t,) for t in base[:40]]
                else:
                    tuples = [(t, u) for t in base[:8] for u in base[:8]]
                for ts in tuples:
                    i = tuple(t.get_id() for t in ts)
                    if i in done:
                        continue
                    done.add(i)
                    count += 1
                    if count > self.limit:
                        return False
                    inst = self.nnf(z3.substitute_vars(f.body(), *reversed(ts)), pos)
                    keep.append(ts)
                    keep.append(inst)
                    s.add(z3.Implies(atom, inst))
                if () not in done and k:
                    done.add(())
                    if f.num_patterns() or rounds:
                        s.add(z3.Implies(atom, f if pos else z3.Not(f)))
            r = s.check()
            if r == z3.unsat:
                return True
        return False


def has_quantifier(f):
    from .core import has_quant
    return has_quant(f)


def int_constants(f, limit=10):
    """The uninterpreted integer constants of a formula"""
    seen, out, stack = set(), [], [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.sort() == INT and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
            if len(out) >= limit:
                break
        stack.extend(x.children())
    return out


def follows(pc, qpc, neg, timeout):
    i = Inst()
    return i.solve(list(pc) + list(qpc), neg, int_constants(neg), timeout)
