"""C22: block sparse matrices behave as the dense matrix they store"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "S", "zero",
                 "algebraic value numbering over the optimised compiler IR of every kernel of spec/laws.py (list S): a block sparse matrix of fixed pattern and symbolic entries is built, the operation applied, and its result compared with the operation on the dense matrix",
                 "operation on the block sparse matrix = the same operation on the dense matrix it stores",
                 "identity", budget=25.0)
