"""C20: curves, splines and surfaces agree with their defining recursions"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "V", "zero",
                 "algebraic value numbering over the optimised compiler IR of every kernel of spec/laws.py (list V): the recursion that defines the curve (de Casteljau, Cox-de Boor, Hermite) is formed next to the library's result, and both have to get the same normal form",
                 "points, tangents, splits, areas and lengths of curves and surfaces equal what the defining recursion gives, as an identity in the parameter and the control points",
                 "recursion", budget=25.0)
