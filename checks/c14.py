"""C14: kernels assign every result on every path and stay inside their arrays"""
import grades


def run(ctx):
    grades.run(ctx, ["unset", "bounds"], "out_set",
               "definite assignment and constant-offset bounds over the optimised compiler IR of every kernel of spec/kernels.py",
               "every output component is stored on every path; every load, store and copy at a known offset lies inside the object it addresses")
