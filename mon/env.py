"""Environment of every run: single-threaded, quiet solvers; fault-injection points.

The external solver packages (not the code under test) are wrapped before abcvoting is imported, so
that one worker uses one core and that C27 can inject faults at every solver invocation.
"""
import os
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")


class Faults:
    """fault plan: fail at invocation number `at` (1-based) with `kind`, or at every invocation in `plan`; None = no fault"""
    at = None
    kind = None
    plan = {}
    calls = 0
    fired = 0
    backend = None
    ctors = 0
    ctor_at = None

    @classmethod
    def reset(cls, at=None, kind=None, plan=None, ctor_at=None):
        cls.at, cls.kind, cls.calls, cls.fired = at, kind, 0, 0
        cls.plan, cls.ctors, cls.ctor_at = plan or {}, 0, ctor_at
        FAKE.clear()

    @classmethod
    def tick(cls, backend):
        cls.calls += 1
        cls.backend = backend
        kind = cls.plan.get(cls.calls) or cls.plan.get("all")
        if cls.at is not None and cls.calls == cls.at:
            kind = cls.kind
        if kind:
            cls.fired += 1
        return kind

    @classmethod
    def tick_ctor(cls):
        cls.ctors += 1
        if cls.ctor_at is not None and cls.ctors >= cls.ctor_at:
            cls.fired += 1
            return True
        return False


FAKE = {}  # id(gurobi model) -> attributes reported instead of the real ones


class InjectedSolverError(RuntimeError):
    pass


def _wrap_gurobi():
    try:
        import gurobipy as gb
    except ImportError:
        return
    Base = gb.Model

    class MonModel(Base):
        def __init__(self, *a, **k):
            if Faults.tick_ctor():
                raise gb.GurobiError(10009, "injected: no solver environment")
            FAKE.pop(id(self), None)
            super().__init__(*a, **k)
            try:
                self.Params.OutputFlag = 0
                self.Params.Threads = 1
            except Exception:
                pass

        def __getattribute__(self, name):
            if FAKE:
                f = FAKE.get(id(self))
                if f and name.lower() in f:
                    return f[name.lower()]
            return super().__getattribute__(name)

        def _early(self, status, args, kwargs):
            """stop with a feasible, typically not optimal solution: optimise the opposite objective"""
            self.update()
            obj, sense = self.getObjective(), self.ModelSense
            self.setObjective(obj, -sense)
            super().optimize(*args, **kwargs)
            if self.getAttr("Status") != gb.GRB.OPTIMAL:
                self.setObjective(0 * obj, sense)
                super().optimize(*args, **kwargs)
            ok = self.getAttr("Status") == gb.GRB.OPTIMAL
            fake = {"status": status if ok else gb.GRB.TIME_LIMIT}
            if ok:
                fake["objval"] = obj.getValue()
            self.setObjective(obj, sense)
            FAKE[id(self)] = fake

        def optimize(self, *a, **k):
            kind = Faults.tick("gurobi")
            FAKE.pop(id(self), None)
            if kind and kind.startswith("early"):
                return self._early(int(kind[5:]), a, k)
            if kind and kind.startswith("status"):
                try:
                    return super().optimize(*a, **k)
                finally:
                    FAKE[id(self)] = {"status": int(kind[6:])}
            if kind == "raise":
                raise gb.GurobiError(10003, "injected: solver failure")
            if kind == "timelimit":
                self.Params.TimeLimit = 0
            elif kind == "interrupt":
                def cb(model, where):
                    model.terminate()
                try:
                    return super().optimize(cb)
                finally:
                    pass
            elif kind == "worklimit":
                self.Params.WorkLimit = 0
            elif kind == "nodelimit":
                self.Params.SolutionLimit = 1
            elif kind == "memory":
                raise MemoryError("injected: out of memory")
            try:
                return super().optimize(*a, **k)
            finally:
                if kind == "timelimit":
                    self.Params.TimeLimit = float("inf")
                elif kind == "worklimit":
                    self.Params.WorkLimit = float("inf")
                elif kind == "nodelimit":
                    self.Params.SolutionLimit = 2000000000
    MonModel.__name__ = "Model"
    gb.Model = MonModel
    try:
        gb.setParam("OutputFlag", 0)
        gb.setParam("Threads", 1)
    except Exception:
        pass


def _wrap_mip():
    try:
        import mip
    except ImportError:
        return
    Base = mip.Model

    class MonModel(Base):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            if Faults.tick_ctor():
                raise InjectedSolverError("injected: no solver environment")

        def optimize(self, *a, **k):
            kind = Faults.tick("mip")
            if kind and kind.startswith("early"):
                obj = self.objective
                self.objective = mip.minimize(obj) if self.sense == mip.MAXIMIZE else mip.maximize(obj)
                st = super().optimize(*a, **k)
                if st != mip.OptimizationStatus.OPTIMAL:
                    return mip.OptimizationStatus.NO_SOLUTION_FOUND
                return mip.OptimizationStatus.FEASIBLE
            if kind and kind.startswith("status"):
                super().optimize(*a, **k)
                return [mip.OptimizationStatus.ERROR, mip.OptimizationStatus.UNBOUNDED, mip.OptimizationStatus.LOADED,
                        mip.OptimizationStatus.NO_SOLUTION_FOUND, mip.OptimizationStatus.CUTOFF, mip.OptimizationStatus.OTHER,
                        mip.OptimizationStatus.INT_INFEASIBLE, mip.OptimizationStatus.FEASIBLE][int(kind[6:]) % 8]
            if kind == "raise":
                raise InjectedSolverError("injected: solver failure")
            if kind == "memory":
                raise MemoryError("injected: out of memory")
            if kind == "timelimit":
                k["max_seconds"] = 1e-9
            elif kind == "nodelimit":
                k["max_solutions"] = 1
            elif kind == "worklimit":
                k["max_nodes"] = 0
            elif kind == "interrupt":
                super().optimize(*a, **k)
                self._status = mip.OptimizationStatus.OTHER
                return mip.OptimizationStatus.OTHER
            return super().optimize(*a, **k)
    MonModel.__name__ = "Model"
    mip.Model = MonModel


def _wrap_ortools():
    try:
        from ortools.sat.python import cp_model
    except ImportError:
        return
    Base = cp_model.CpSolver

    class MonSolver(Base):
        def __init__(self, *a, **k):
            if Faults.tick_ctor():
                raise InjectedSolverError("injected: no solver")
            super().__init__(*a, **k)
            self.parameters.num_workers = 1

        def _go(self, meth, model, *a, **k):
            kind = Faults.tick("ortools")
            if kind and kind.startswith("early"):
                m2 = model.clone() if hasattr(model, "clone") else model.Clone()
                proto = m2.Proto() if hasattr(m2, "Proto") else m2.proto
                co = proto.objective.coeffs
                for i in range(len(co)):
                    co[i] = -co[i]
                proto.objective.scaling_factor = -(proto.objective.scaling_factor or 1)
                st = meth(m2, *a, **k)
                return cp_model.FEASIBLE if st == cp_model.OPTIMAL else cp_model.UNKNOWN
            if kind and kind.startswith("status"):
                meth(model, *a, **k)
                return [cp_model.UNKNOWN, cp_model.MODEL_INVALID, cp_model.FEASIBLE][int(kind[6:]) % 3]
            if kind == "raise":
                raise InjectedSolverError("injected: solver failure")
            if kind == "memory":
                raise MemoryError("injected: out of memory")
            if kind in ("timelimit", "worklimit"):
                self.parameters.max_deterministic_time = 1e-12
                self.parameters.max_time_in_seconds = 1e-12
            elif kind == "nodelimit":
                self.parameters.stop_after_first_solution = True
            elif kind == "interrupt":
                self.parameters.max_number_of_conflicts = 0
                self.parameters.stop_after_presolve = True
            return meth(model, *a, **k)

        def Solve(self, model, *a, **k):
            return self._go(super().solve if hasattr(Base, "solve") else super().Solve, model, *a, **k)

        def solve(self, model, *a, **k):
            return self._go(super().solve, model, *a, **k)
    MonSolver.__name__ = "CpSolver"
    cp_model.CpSolver = MonSolver


_wrap_gurobi()
_wrap_mip()
_wrap_ortools()
