"""C28: fields, cameras, bounding volumes, special functions and colours equal their definitions"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "G", "zero",
                 "algebraic value numbering over the optimised compiler IR of every kernel of spec/laws.py (list G): the function is applied to symbolic arguments and every number it leaves is compared with the number its definition gives",
                 "the result of the function is, entry by entry, the value of its definition (stencil, boundary integral, projection matrix, box or ball, harmonic, colour) for those arguments",
                 "function", budget=25.0)
