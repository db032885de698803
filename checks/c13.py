"""C13: kernels do not depend on the origin of coordinates"""
import algs


def run(ctx):
    algs.run(ctx, "trans",
             "algebraic value numbering with derivatives along a symbolic translation of all positions, over the optimised compiler IR of every kernel of spec/kernels.py",
             "position results move exactly with the coordinates, all other results and all compared quantities do not move",
             ("does not follow a translation of the coordinates in", "depends on the origin of the coordinates"))
