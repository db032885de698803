"""C15: kernels commute with rotations of the coordinates"""
import algs


def run(ctx):
    algs.run(ctx, "rot",
             "algebraic value numbering with derivatives along a symbolic rotation of all vectors, over the optimised compiler IR of every kernel of spec/kernels.py",
             "under an arbitrary infinitesimal rotation every result changes as the tensor it is declared to be",
             ("does not turn with the coordinates in", "depends on the orientation of the coordinates"))
