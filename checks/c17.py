"""C17: kernels satisfy the algebraic identities that define them"""
import lawcheck


def run(ctx):
    lawcheck.run(ctx, "I", "zero",
                 "algebraic value numbering over the optimised compiler IR of every kernel of spec/laws.py (list I): the defining equation of the operation is formed next to the library's result, and both sides have to get the same normal form",
                 "the defining equation of the operation holds between its inputs and its results, as an identity in all inputs",
                 "identity", budget=25.0)
