"""C25: operations on meshes, point sets, grids and bone hierarchies equal their definitions"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "M", "zero",
                 "algebraic value numbering over the optimised compiler IR of every kernel of spec/laws.py (list M): the operation is applied to a small mesh, point set, grid or hierarchy of fixed connectivity with symbolic coordinates and values, and every number it leaves is compared with the number its definition gives",
                 "the result of the operation is, entry by entry, the value of its definition (weights, stencils, constraint values and gradients, moments, transformations) on that configuration",
                 "operation", budget=25.0)
