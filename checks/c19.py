"""C19: element matrices and residuals agree with the weak form of their equation"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "F", "zero",
                 "algebraic value numbering over the optimised compiler IR of every kernel of spec/laws.py (list F): the element matrix or residual prescribed by the weak form (reference gradients of linear elements, patch tests of higher ones) is formed next to the library's result, and both have to get the same normal form",
                 "every entry of an element matrix, and every residual, equals what the weak form of the equation prescribes, as an identity in the corner positions, nodal values and material parameters",
                 "weak form", budget=25.0)
