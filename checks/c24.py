"""C24: linear solvers return vectors that satisfy their system"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "L", "zero",
                 "algebraic value numbering over the optimised compiler IR of every kernel of spec/laws.py (list L): the solver is applied to a system of fixed sparsity with symbolic entries, and the equations are formed again from the entries and the vector returned",
                 "the vector returned by a direct solver satisfies the system; an iterative solver leaves the residual it reports and reaches the solution in as many steps as there are unknowns",
                 "identity", budget=25.0)
